#!/usr/bin/env python3
"""Build lib_moment from /repo under sanitizers with one property's monitors, run them, judge, write evidence.

usage: run_check.py C01 [--section S] [--case N]       (VERIF_SEED, VERIF_TIER from the environment)
exit 0: held on everything explored; 1 with VIOLATION line; 2: the check itself failed (no verdict).
"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, '.build')
sys.path.insert(0, HERE)
from harness.spec import SPEC, ASAN, TSAN

def log(*a): print(*a, flush=True)

def fail(msg):
    log('CHECK-ERROR: ' + msg); sys.exit(2)

def build(pid, kind, flags, extra_targets=()):
    """returns path of the executable."""
    cxx = shutil.which('g++-12') or shutil.which('g++')
    last = ''
    for batch in ('4', '0'):
        bdir = os.path.join(BUILD, kind + ('' if batch == '4' else '-nu'))
        os.makedirs(bdir, exist_ok=True)
        if not (os.path.exists(bdir + '/build.ninja') and os.path.exists(bdir + '/.flags')
                and open(bdir + '/.flags').read() == flags + REPO):
            shutil.rmtree(bdir, ignore_errors=True); os.makedirs(bdir)
            open(bdir + '/.flags', 'w').write(flags + REPO)
        r = subprocess.run(['cmake', '-S', HERE + '/harness', '-B', bdir, '-G', 'Ninja', '-DCMAKE_CXX_COMPILER=' + cxx,
              '-DCMAKE_BUILD_TYPE=None', '-DCMAKE_CXX_FLAGS=' + flags, '-DREPO=' + REPO, '-DVERIF_BATCH=' + batch],
              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        last = r.stdout
        if r.returncode == 0:
            r = subprocess.run(['ninja', '-C', bdir, pid.lower()], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            last = r.stdout
            if r.returncode == 0:
                return os.path.join(bdir, pid.lower())
        if 'FAILED: CMakeFiles/' + pid.lower() in last or 'FAILED: ' + pid.lower() in last: break   # the harness, not the library
        log('note: %s build with unity batch %s failed' % (kind, batch))
    log(last[-6000:])
    fail('build failed')

REPORT = re.compile(r'(ERROR: AddressSanitizer: \S+|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n(]*|Assertion .* failed|terminate called[^\n]*|VERIF-ASSERT[^\n]*)')

def frames(text):
    """innermost frames of the first report that lie in the code under test: stable identification of a site."""
    fs = []
    for m in re.finditer(r'^\s*#\d+ (?:0x[0-9a-f]+ in )?(.*)$', text, re.M):
        t = m.group(1)
        if '/cpp/lib_moment/' in t or REPO + '/cpp/' in t:
            f = re.sub(r'\(.*', '', t); f = re.sub(r'<[^<>]*>', '', f); f = re.sub(r'<[^<>]*>', '', f)
            fs.append(f.strip().split(' ')[0].split('::')[-1])
        if len(fs) >= 1: break
    return '/'.join(fs) or '?'

def run_section(exe, kind, section, seed, tier, outdir, timeout, case=None):
    out = os.path.join(outdir, '%s-%s.json' % (kind, section))
    for f in (out, out + '.crumb', out + '.log'):
        if os.path.exists(f): os.remove(f)
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:allocator_may_return_null=0:max_allocation_size_mb=4096:handle_abort=1'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=66'
    env['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4'
    cmd = [exe, '--section', section, '--seed', str(seed), '--out', out] + (['--thorough'] if tier == 'thorough' else [])
    if case is not None: cmd += ['--case', str(case)]
    t0 = time.time()
    with open(out + '.log', 'wb') as lf:
        try:
            rc = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, timeout=timeout, cwd=outdir).returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
    text = open(out + '.log', errors='replace').read()
    crumb = ''
    if os.path.exists(out + '.crumb'):
        crumb = open(out + '.crumb', 'rb').read().split(b'\0')[0].decode('utf8', 'replace')
    res = None
    if rc == 0 and os.path.exists(out):
        res = json.load(open(out))
    return dict(section=section, kind=kind, rc=rc, res=res, text=text, crumb=crumb, wall=time.time() - t0, cmd=cmd)

def load_known():
    known = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m: known[(m.group(1), m.group(2))] = m.group(3)
    return known

def main():
    pid = sys.argv[1]
    only = sys.argv[sys.argv.index('--section') + 1] if '--section' in sys.argv else None
    case = sys.argv[sys.argv.index('--case') + 1] if '--case' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    spec = SPEC[pid]
    t0 = time.time()
    outdir = os.path.join(BUILD, 'out', pid); os.makedirs(outdir, exist_ok=True)
    jobs = []
    for kind in spec['builds']:
        exe = build(pid, kind, ASAN if kind == 'asan' else TSAN)
        r = subprocess.run([exe, '--list'], stdout=subprocess.PIPE, text=True,
                           env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        if r.returncode: fail('cannot list sections of ' + exe)
        for s in r.stdout.split():
            # naming convention: mt_* run under TSan (and asan when both are built); others under asan only
            if kind == 'tsan' and not s.startswith('mt_'): continue
            if only and s != only: continue
            jobs.append((exe, kind, s))
    tb = time.time() - t0
    if not jobs: fail('no sections')
    timeout = spec.get('timeout', 200) if tier == 'quick' else 3600 * 3
    results = []
    def one(j):
        r = run_section(*j, seed, tier, outdir, timeout, case)
        if r['rc'] == 'timeout':
            r2 = run_section(*j, seed, tier, outdir, timeout, case)
            if r2['rc'] != 'timeout': return r2
        return r
    with cf.ThreadPoolExecutor(max_workers=spec.get('jobs', 8)) as ex:
        results = list(ex.map(one, jobs))
    vio = []
    ev = cases = distinct = 0; samples = []; counters = {}; per_section = {}
    for r in results:
        name = r['section'] if r['kind'] == 'asan' else r['kind'] + ':' + r['section']
        if r['res']:
            d = r['res']
            ev += d['evaluations']; cases += d['cases']; distinct += d['distinct']; samples += d['samples'][:2]
            for k, v in d['counters'].items(): counters[name + '.' + k] = v
            per_section[name] = dict(cases=d['cases'], oracle_evaluations=d['evaluations'], distinct_nontrivial=d['distinct'], wall_s=round(r['wall'], 1))
            if d['evaluations'] == 0 and not d['violations'] and case is None: fail('section %s observed nothing' % name)
            for v in d['violations']:
                vio.append(dict(key='%s/%s' % (r['section'], v['key']), section=r['section'], kind=r['kind'], case=v['case'], msg=v['msg'], crumb=v['crumb']))
        elif r['rc'] == 'timeout':
            vio.append(dict(key='%s/no-termination' % r['section'], section=r['section'], kind=r['kind'], case=None,
                            msg='did not finish within %d s (twice)' % timeout, crumb=r['crumb']))
        elif r['rc'] == 3:
            fail('section %s: %s' % (name, r['text'][-500:]))
        else:
            m = REPORT.search(r['text'])
            what = m.group(1) if m else 'died with status %s' % r['rc']
            if r['rc'] in (-9,): fail('section %s was killed (memory?)' % name)
            w = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', what)
            w = re.sub(r'[^A-Za-z]+', '-', w)[:60].strip('-')
            mc = re.match(r'#(\d+)', r['crumb'])
            i = r['text'].find(what) if m else max(0, len(r['text']) - 3000)
            vio.append(dict(key='%s/crash/%s/%s' % (r['section'], w, frames(r['text'][i if i > 0 else 0:])), section=r['section'], kind=r['kind'],
                            case=int(mc.group(1)) if mc else None, msg=r['text'][max(0, i - 200):i + 4000], crumb=r['crumb']))
    known = load_known()
    fresh, seen = [], {}
    for v in vio:
        if (pid, v['key']) in known: seen[v['key']] = known[(pid, v['key'])]
        else: fresh.append(v)
    for k, w in seen.items(): log('KNOWN-FINDING: property=%s %s: %s' % (pid, k, w))
    edir = os.path.join(HERE, 'evidence'); os.makedirs(os.path.join(edir, 'replay'), exist_ok=True)
    if not only and case is None:
        evidence = dict(property=pid, tier=tier, seed=seed, level='exploration',
            coverage=dict(evaluations=cases, distinct_nontrivial=distinct, rule=spec['rule'], samples=samples[:24],
                          oracle_evaluations=ev, sections=per_section, observed=counters),
            assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
        evidence['coverage']['build_s'] = round(tb, 1)
        json.dump(evidence, open(os.path.join(edir, pid + '.json'), 'w'), indent=1)
    log('%s %s seed %d: %d sections, %d cases, %d oracle evaluations, %d distinct nontrivial; build %.0fs total %.0fs' %
        (pid, tier, seed, len(results), cases, ev, distinct, tb, time.time() - t0))
    if '-v' in sys.argv:
        for n, d in per_section.items(): log('  ', n, d)
        for n, d in counters.items(): log('     ', n, d)
    shown = set()
    for v in fresh:
        h = hashlib.sha1(v['key'].encode()).hexdigest()[:8]
        path = os.path.join(edir, 'replay', '%s-%s.json' % (pid, h))
        if v['key'] in shown: continue
        shown.add(v['key'])
        v['replay_cmd'] = 'cd %s && VERIF_SEED=%d VERIF_TIER=%s python3 run_check.py %s --section %s%s' % (
            HERE, seed, tier, pid, v['section'], '' if v['case'] is None else ' --case %s' % v['case'])
        json.dump(v, open(path, 'w'), indent=1)
        log('  key=%s\n  at: %s\n  %s' % (v['key'], v['crumb'][:600], v['msg'][:1500]))
        log('VIOLATION property=%s replay=%s' % (pid, path))
    if fresh: sys.exit(1)
    if distinct < 2 and not only: fail('observed nothing of interest')
    sys.exit(0)
main()
