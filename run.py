#!/usr/bin/env python3
"""run.py Cxx [--tier quick|thorough] [--seed N] [--scale F] | --setup | --replay FILE

Builds /repo's working tree with sanitizers together with the property's driver,
runs the driver in shards, merges what its monitors saw, and gives the verdict."""
import argparse, fcntl, fnmatch, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('F2C_REPO', '/repo')
BUILD = os.environ.get('F2C_BUILD', V + '/build')
NCPU = os.cpu_count() or 4
EXCL = {'path_planning/dubins_curves.cpp', 'path_planning/dubins_curves_cc.cpp',
        'path_planning/path_planning.cpp', 'path_planning/reeds_shepp_curves.cpp',
        'path_planning/reeds_shepp_curves_hc.cpp', 'types/Path.cpp',
        'route_planning/route_planner_base.cpp', 'utils/visualizer.cpp'}
SHIMMED = EXCL - {'utils/visualizer.cpp'}

def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

class BuildError(Exception):
    pass

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b'\0')
    return m.hexdigest()[:24]

def tree_hash(root, pats=('.h', '.hpp')):
    m = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(pats):
                p = os.path.join(d, f)
                m.update(os.path.relpath(p, root).encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return m.hexdigest()

def gdal_flags(which):
    return subprocess.check_output(['gdal-config', which], text=True).split()

def options(driver):
    """Build options are declared in the driver's first lines: // BUILD: tsan shim parallel"""
    m = re.search(r'^// BUILD:(.*)$', open(driver).read(), re.M)
    return set(m.group(1).split()) if m else set()

def quick_factor(driver):
    """// QUICK: 4 multiplies the number of cases of the quick tier (NQ of each scenario) by four"""
    m = re.search(r'^// QUICK:\s*([0-9.]+)', open(driver).read(), re.M)
    return float(m.group(1)) if m else 1.0

def build(prop):
    driver = f'{V}/drivers/{prop}.cpp'
    opt = options(driver)
    base = ['g++', '-std=c++17', '-O1', '-g1', '-fno-omit-frame-pointer', '-w', '-ffunction-sections',
            '-fdata-sections', '-D_GLIBCXX_ASSERTIONS', f'-DDATA_PATH="{REPO}/data/"']
    if 'tsan' in opt:
        san = ['-fsanitize=thread', '-DVF_TSAN', '-D_GLIBCXX_USE_TBB_PAR_BACKEND=0', '-include', f'{V}/harness/tsan_par.hpp']
    else:
        san = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr',
               '-fno-sanitize-recover=all', '-DVF_ASAN']
    if 'parallel' in opt:
        san = san + ['-DALLOW_PARALLELIZATION']
    inc = [f'-I{REPO}/include', f'-I{V}/harness', '-I/usr/include/eigen3'] + gdal_flags('--cflags')
    shim = [f'-I{V}/shim']
    os.makedirs(BUILD, exist_ok=True)
    har = tree_hash(V + '/harness')
    hdr = tree_hash(REPO + '/include') + (har if 'tsan' in opt else '')
    shm = tree_hash(V + '/shim', ('.h', '.hpp', '.cpp'))
    jobs = []   # (source, object, cmd)
    def add(src, flags, *keys):
        o = f'{BUILD}/{h(open(src, "rb").read(), src.replace(REPO, ""), " ".join(flags), *keys)}.o'
        jobs.append((src, o, flags + ['-c', src, '-o']))
        return o
    dobj = add(driver, base + san + inc + (shim if 'shim' in opt else []), hdr, har, shm if 'shim' in opt else '')
    lib = []
    for s in sorted(glob.glob(f'{REPO}/src/**/*.cpp', recursive=True)):
        rel = os.path.relpath(s, f'{REPO}/src/fields2cover')
        if rel in EXCL or rel == '../fields2cover.cpp':
            if 'shim' not in opt or rel == 'utils/visualizer.cpp':
                if rel != '../fields2cover.cpp':
                    continue
        sf = rel in SHIMMED or rel == '../fields2cover.cpp'
        if rel == '../fields2cover.cpp' and 'shim' not in opt:
            continue
        srcinc = [f'-I{REPO}/src']
        lib.append(add(s, base + san + inc + srcinc + (shim if sf else []), hdr, shm if sf else ''))
    if 'shim' in opt:
        for s in sorted(glob.glob(f'{V}/shim/*.cpp')):
            lib.append(add(s, base + san + inc + shim, hdr, shm))
    with open(f'{BUILD}/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        todo = [j for j in jobs if not os.path.exists(j[1])]
        def comp(j):
            tmp = j[1] + f'.{os.getpid()}.tmp'
            r = sh(j[2] + [tmp])
            if r.returncode != 0:
                return f'{j[0]}:\n{r.stdout[-4000:]}'
            os.rename(tmp, j[1])
        with ThreadPoolExecutor(NCPU) as ex:
            errs = [e for e in ex.map(comp, todo) if e]
        if errs:
            raise BuildError('\n'.join(errs[:3]))
        for j in jobs:
            os.utime(j[1])
        exe = f'{BUILD}/{prop}-{h(dobj, *lib)}'
        if not os.path.exists(exe):
            a = f'{exe}.a'
            if os.path.exists(a): os.remove(a)
            r = sh(['ar', 'qcT', a] + lib) if False else sh(['ar', 'qc', a] + lib)
            if r.returncode == 0:
                r = sh(['g++'] + [f for f in san if f.startswith('-fsan')] + [dobj, '-Wl,--start-group', a,
                        '-Wl,--end-group', '-Wl,--gc-sections', '-o', exe + '.tmp'] + gdal_flags('--libs') +
                       ['-lgeos_c', '-ltinyxml2', '-ltbb', '-lproj', '-lpthread'])
            if os.path.exists(a): os.remove(a)
            if r.returncode != 0:
                raise BuildError('link: ' + r.stdout[-4000:])
            os.rename(exe + '.tmp', exe)
        os.utime(exe)
        # bound the cache
        fs = sorted((f for f in glob.glob(BUILD + '/*') if os.path.isfile(f)), key=os.path.getmtime)
        tot = sum(os.path.getsize(f) for f in fs)
        while fs and tot > 6e9:
            f = fs.pop(0); tot -= os.path.getsize(f); os.remove(f)
    return exe, opt

def env(opt):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = ('detect_leaks=0:detect_stack_use_after_return=0:handle_abort=1:exitcode=99:'
                         'hard_rss_limit_mb=3000:allocator_may_return_null=0:detect_odr_violation=0:'
                         'symbolize=1:quarantine_size_mb=32:malloc_context_size=12')
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=99'
    e['TSAN_OPTIONS'] = f'halt_on_error=1:exitcode=66:second_deadlock_stack=1:suppressions={V}/harness/tsan.supp:history_size=4'
    e['CPL_DEBUG'] = 'OFF'
    e['LC_ALL'] = 'C'
    return e

def crash_key(err):
    m = re.search(r'SUMMARY: (\w+): ([\w-]+)', err)
    kind = f'{m.group(1)}:{m.group(2)}' if m else None
    if re.search(r'ThreadSanitizer', err) and m:
        kind = 'ThreadSanitizer:' + '-'.join(re.search(r'SUMMARY: \w+: ([\w ]+)', err).group(1).split()[:2])
    if not kind:
        m = re.search(r'runtime error: ([^\n]{0,60})', err)
        kind = 'UBSan:' + re.sub(r'[^A-Za-z ]', '', m.group(1)).strip().replace(' ', '-')[:40] if m else 'died'
    if 'hard rss limit' in err:
        kind = 'memory-exhausted'
    f = [x for x in re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]+?) (?:/|\()[^\n]*', err) if 'f2c::' in x]
    if 'ThreadSanitizer' in err:
        f = re.findall(r'#\d+ (f2c::[^\n(<]+)', err)
    fn = re.sub(r'\(.*|<.*', '', f[0]) if f else '?'
    return f'crash:{kind}:{fn.strip()}'

class Runner:
    def __init__(self, prop, exe, opt, tier, seed, scale):
        self.prop, self.exe, self.opt, self.tier, self.seed, self.scale = prop, exe, opt, tier, seed, scale
        self.tmp = tempfile.mkdtemp(prefix=f'vf-{prop}-')
        self.limit = 700 if tier == 'quick' else 20000
        self.inconclusive = []
        self.n = 0

    def run(self, args, budget=20, limit=None):
        self.n += 1
        tag = f'{self.tmp}/{os.urandom(6).hex()}'
        work = tag + '.d'; os.makedirs(work)
        cmd = [self.exe, '--tier', self.tier, '--seed', str(self.seed), '--scale', str(self.scale),
               '--budget', str(budget), '--out', tag + '.json', '--status', tag + '.st'] + args
        with open(tag + '.err', 'wb') as ef:
            e = env(self.opt); e['VF_TMP'] = work
            try:
                p = subprocess.run(cmd, stdout=ef, stderr=ef, timeout=limit or self.limit, env=e, cwd=work)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
        err = open(tag + '.err', 'rb').read().decode('utf8', 'replace')
        res = None
        if os.path.exists(tag + '.json'):
            try: res = json.load(open(tag + '.json'))
            except Exception: res = None
        at = None
        if os.path.exists(tag + '.st'):
            b = open(tag + '.st', 'rb').read()
            at = f"{b[:96].split(bytes(1))[0].decode()}:{int.from_bytes(b[96:104], 'little', signed=True)}"
        shutil.rmtree(work, ignore_errors=True)
        return rc, res, err, at

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def shard(self, k, n):
        """Runs shard k, continuing after crashes. Returns (results, crashes)."""
        results, crashes, extra = [], [], []
        for _ in range(8):
            rc, res, err, at = self.run(['--shard', f'{k}/{n}'] + extra)
            if res: results.append(res)
            if rc == 0 and res:
                return results, crashes
            if rc == 'timeout':
                self.inconclusive.append(f'shard {k}/{n} ran out of wall time at {at}')
                return results, crashes
            if not at or at.startswith(':'):
                self.inconclusive.append(f'shard {k}/{n} ended with {rc} before its first case: {err[-500:]}')
                return results, crashes
            crashes.append((rc, err, at, k, n))
            extra = ['--from', at]
        return results, crashes

def load_known(prop):
    kn = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                kn.append((m.group(2), m.group(3).strip()))
    return kn

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('-q', action='store_true')
    a = ap.parse_args()
    if a.setup:
        build(os.path.basename(sorted(glob.glob(V + '/drivers/C*.cpp'))[0])[:-4])
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        exe, opt = build(r['property'])
        cmd = [exe, '--tier', r['tier'], '--seed', str(r['seed']), '-v'] + r['args']
        print(' '.join(cmd))
        e = env(opt); d = tempfile.mkdtemp(prefix='vf-replay-'); e['VF_TMP'] = d
        rc = subprocess.run(cmd, env=e, cwd=d).returncode
        shutil.rmtree(d)
        return rc
    t0 = time.time()
    prop, tier = a.prop, a.tier
    try:
        exe, opt = build(prop)
    except BuildError as e:
        print('BUILD FAILED\n' + str(e)); return 2
    tb = time.time() - t0
    R = Runner(prop, exe, opt, tier, a.seed, a.scale * (quick_factor(f'{V}/drivers/{prop}.cpp') if tier == 'quick' else 1))
    try:
        return judge(a, R, opt, prop, tier, t0, tb)
    finally:
        R.close()

def judge(a, R, opt, prop, tier, t0, tb):
    n = 2 if 'tsan' in opt else NCPU
    with ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(lambda k: R.shard(k, n), range(n)))
    merged = dict(cases=0, checks=0, counters={}, scen={}, samples=[], sigs=set())
    viol = {}     # (key) -> list of (scen:idx, msg, shardargs)
    for k, (results, crashes) in enumerate(outs):
        for res in results:
            merged['cases'] += res['cases']; merged['checks'] += res['checks']
            for c, v in res['counters'].items(): merged['counters'][c] = merged['counters'].get(c, 0) + v
            for s, (c, v) in res['scen'].items():
                o = merged['scen'].setdefault(s, [0, 0]); o[0] += c; o[1] += v
            merged['samples'] += res['samples']; merged['sigs'] |= set(res['sigs'])
            for v in res['viol']:
                viol.setdefault(f"{v['scen']}/{v['key']}", []).append((f"{v['scen']}:{v['idx']}", v['msg'], k, n))
        for rc, err, at, k_, n_ in crashes:
            key = f"{at.rsplit(':', 1)[0]}/" + ('hang' if rc == 97 else crash_key(err))
            viol.setdefault(key, []).append((at, err[-3000:] if rc != 97 else 'case burnt its CPU budget', k, n))
    # scenarios which observed nothing
    lst = subprocess.run([R.exe, '--list'], stdout=subprocess.PIPE, text=True, env=env(opt)).stdout.split('\n')
    for l in lst:
        if l.strip():
            s = l.split()[0]
            if merged['scen'].get(s, [0, 0])[1] == 0 and not viol:
                R.inconclusive.append(f'scenario {s} observed nothing')
    known = load_known(prop)
    hits, shown, confirmed = {}, 0, []
    slow = []
    def confirm(item):
        key, occ = item
        scen, kk = key.split('/', 1)
        for at, msg, k, nn in (occ if kk == 'hang' else occ[:3]):
            rc, res, err, _ = R.run(['--only', at], budget=60, limit=300)
            if kk == 'hang':
                if rc == 97: return key, at, msg, ['--only', at]
                slow.append(at)
                for v in (res or {}).get('viol', []):
                    return f"{v['scen']}/{v['key']}", at, v['msg'], ['--only', at]
                if rc != 0: return key, None, f'{at} ended with {rc} when repeated: {err[-300:]}', None
                continue
            if rc != 0 and rc != 97 and rc != 'timeout':
                if kk.startswith('crash:'): return key, at, err[-3000:], ['--only', at]
            if res and any(f"{v['scen']}/{v['key']}" == key for v in res['viol']):
                return key, at, msg, ['--only', at]
        if kk == 'hang': return None     # slow, not hanging: with the threefold budget the cases end, and all is well with them
        at, msg, k, nn = occ[0]     # depends on what ran before: repeat its shard
        for _ in range(1 if 'tsan' not in opt else 3):
            rc, res, err, at2 = R.run(['--shard', f'{k}/{nn}'], limit=R.limit)
            if res and any(f"{v['scen']}/{v['key']}" == key for v in res['viol']):
                return key, at, msg, ['--shard', f'{k}/{nn}']
            if kk.startswith('crash:') and rc not in (0, 97, 'timeout'):
                return key, at, err[-3000:], ['--shard', f'{k}/{nn}']
        if kk.startswith('crash:') and ('Sanitizer' in msg or 'runtime error' in msg):
            return key, at, msg, ['--shard', f'{k}/{nn}']     # a sanitizer report is evidence in itself
        return key, None, msg, None
    items = sorted(viol.items())
    unknown = []
    for key, occ in items:
        hit = [i for i, (g, d) in enumerate(known) if fnmatch.fnmatchcase(key, g)]
        if hit:
            for i in hit: hits.setdefault(i, []).append(occ[0][0])
        else:
            unknown.append((key, occ))
    with ThreadPoolExecutor(NCPU) as ex:
        conf = [x for x in ex.map(confirm, unknown[:24]) if x]
    nviol = 0
    for key, at, msg, args in conf:
        if at is None:
            R.inconclusive.append(f'{key} was seen once but not again: {msg[:300]}'); continue
        nviol += 1
        os.makedirs(V + '/replays', exist_ok=True)
        rp = f'{V}/replays/{prop}-{h(key, at, a.seed, tier)[:10]}.json'
        json.dump(dict(property=prop, tier=tier, seed=a.seed, args=args, key=key, case=at, message=msg,
                       how=f'python3 {V}/run.py --replay {rp}'), open(rp, 'w'), indent=1)
        print(f'VIOLATION property={prop} replay={rp}')
        print(f'  {key} at {at}: {msg if not key.split("/")[1].startswith("crash:") else msg[-1500:]}'[:2500])
    for i in sorted(hits):
        print(f'KNOWN-FINDING: property={prop} {known[i][1]} (seen at {hits[i][0]})')
    ev = dict(property=prop, tier=tier, seed=a.seed, level='exploration',
              coverage=dict(evaluations=merged['cases'], distinct_nontrivial=len(merged['sigs']), cases_beyond_cpu_budget=slow,
                            rule='A case is one scenario run on inputs drawn from hash(seed, scenario, index); it is '
                                 'non-trivial when its monitors examined a result of the code under test, and distinct '
                                 'when the hash of the inputs and results it recorded differs from all others.',
                            samples=merged['samples'][:24] or ['(none)'],
                            monitor_checks=merged['checks'], events=merged['counters'],
                            scenarios={s: dict(cases=c, checks=v) for s, (c, v) in merged['scen'].items()},
                            sanitizers='ThreadSanitizer' if 'tsan' in opt else
                            'AddressSanitizer, UndefinedBehaviorSanitizer, float-cast-overflow, libstdc++ assertions',
                            build_s=round(tb, 1)),
              assumptions=['GDAL, GEOS, PROJ, tinyxml2, nlohmann::json and the C++ runtime are trusted and not instrumented'] +
              (['steering_functions and or-tools are replaced by the stand-ins in shim/'] if 'shim' in opt else []),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    print(f'{prop} {tier} seed={a.seed}: {merged["cases"]} cases, {len(merged["sigs"])} distinct, '
          f'{merged["checks"]} checks, build {tb:.1f}s, total {time.time()-t0:.1f}s, {nviol} violations')
    if nviol: return 1
    if R.inconclusive or merged['cases'] == 0:
        for i in R.inconclusive: print('INCONCLUSIVE ' + i)
        return 2
    return 0

if __name__ == '__main__':
    try:
        sys.exit(main())
    except BuildError as e:
        print('BUILD FAILED\n' + str(e)); sys.exit(2)
