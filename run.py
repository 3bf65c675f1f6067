#!/usr/bin/env python3
"""Builds and runs the checks.

  run.py check C01 [--tier quick|thorough]   decide one property (tier defaults to $VERIF_TIER, else quick)
  run.py replay FILE                         re-run the case recorded in a replay file
  run.py setup                               sanity check of the tool chain
  run.py list
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
H = os.path.join(ROOT, 'harness')
BUILD = os.path.join(ROOT, 'build')
EVID = os.path.join(ROOT, 'evidence')
QUICK_BUDGET = 760        # seconds of wall-clock time for compiling and exploring (quick tier)
JOBS = 8
STD = ['-std=gnu++20', '-w', '-DPERSISTENCE_BOOST_DESCRIBE', '-pthread', '-I' + os.path.join(REPO, 'include'), '-I' + H]
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-gline-tables-only', '-fsanitize-ignorelist=' + os.path.join(H, 'ubsan.ignore')]

sys.path.insert(0, H)
from checks import CHECKS  # noqa: E402


class Broken(Exception):
    """the check itself cannot give an answer"""


class CompileError(Exception):
    def __init__(self, src, log, internal):
        super().__init__(src)
        self.src, self.log, self.internal = src, log, internal


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'include'), H):
        for d, dirs, files in os.walk(base):
            dirs.sort()
            if '__pycache__' in d:
                continue
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def run(cmd, timeout=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors='replace', text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return -1, 'timeout: ' + ' '.join(cmd)


def compile_one(src, obj, flags, internal=False, cxxs=('clang++', 'g++')):
    if os.path.exists(obj):
        return
    logs = []
    for cxx in cxxs:
        tmp = obj + '.tmp%d' % os.getpid()
        fl = [f for f in flags if not (cxx == 'g++' and (f == '-gline-tables-only' or 'ignorelist' in f))]
        rc, log = run([cxx, *fl, '-c', src, '-o', tmp], timeout=600)
        if rc == 0:
            os.replace(tmp, obj)
            return
        logs.append('$ %s %s\n%s' % (cxx, src, log[:4000]))
    raise CompileError(src, '\n'.join(logs), internal)


def builddir(key):
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, key)
    if not os.path.isdir(d):
        olds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)), key=os.path.getmtime)
        for o in olds[:-5]:
            shutil.rmtree(o, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
    return d


def sanity():
    """the headers and the plainest use of them compile: a failure elsewhere is then specific"""
    d = tempfile.mkdtemp(dir=BUILD)
    try:
        src = os.path.join(d, 't.cpp')
        with open(src, 'w') as f:
            f.write('#include <persistence/persistence.hpp>\n#include <persistence/parse.hpp>\n#include <persistence/write.hpp>\n'
                    '#include <persistence/deserialize.hpp>\n#include <persistence/serialize.hpp>\nint main() { return 0; }\n')
        rc, log = run(['clang++', *STD, '-fsyntax-only', src], timeout=600)
        return rc == 0, log
    finally:
        shutil.rmtree(d, ignore_errors=True)


def build(cid, tier):
    """returns the list of binaries of the check: [(label, path)]"""
    c = CHECKS[cid]
    key = tree_hash()[:16]
    d = builddir(key)
    bins, plans, alljobs = [], [], []
    for b in c['bins']:
        flags = list(STD)
        san = b.get('san', False)
        if san:
            flags += SAN
        flags += b.get('flags', [])
        tag = hashlib.sha256(' '.join(flags).encode()).hexdigest()[:8]
        bd = os.path.join(d, tag)
        os.makedirs(bd, exist_ok=True)
        jobs, objs = [], []
        cxxs = tuple(b.get('cxx', ('clang++', 'g++')))
        opt = b.get('opt', '-O1')
        defs = b.get('defs', [])
        dt = hashlib.sha256(' '.join(defs).encode()).hexdigest()[:6] if defs else 'x'
        for s in b['src']:
            shared = s in ('core.cpp', 'main.cpp', 'lib.cpp', 'deep.cpp') or s.startswith('ops')
            o = os.path.join(bd, s.replace('/', '_')[:-4] + ('.o' if shared else '.%s.o' % dt))
            so = b.get('src_opt', {}).get(s, opt)
            sf = b.get('src_flags', {}).get(s, [])
            if sf:
                o = o[:-2] + '.' + hashlib.sha256(' '.join(sf).encode()).hexdigest()[:6] + '.o'
            jobs.append((os.path.join(H, s), o, [*flags, so, *sf, *([] if shared else defs)], s in b.get('internal', []), cxxs))
            objs.append(o)
        if b.get('universe'):
            n = b.get('shards', 12)
            filt = b.get('filter', '')
            udefs = b.get('udefs', [])
            u = os.path.join(bd, 'u' + hashlib.sha256((filt + str(n) + ' '.join(udefs)).encode()).hexdigest()[:8])
            os.makedirs(u, exist_ok=True)
            rc, log = run([sys.executable, os.path.join(H, 'shards.py'), u, str(n), filt])
            if rc:
                raise Broken(log)
            for f in sorted(os.listdir(u)):
                if f.endswith('.cpp'):
                    o = os.path.join(u, f[:-4] + '.o')
                    jobs.append((os.path.join(u, f), o, [*flags, b.get('uopt', '-O0'), *udefs], False, cxxs))
                    objs.append(o)
        plans.append((b, bd, dt, flags, opt, defs, san, objs, {j[1] for j in jobs}))
        alljobs += [j for j in jobs if all(j[1] != x[1] for x in alljobs)]
    with ThreadPoolExecutor(JOBS) as ex:
        futs = {j[1]: ex.submit(compile_one, *j) for j in alljobs}
    for b, bd, dt, flags, opt, defs, san, objs, mine in plans:
        dropped, errs2 = [], []
        for o, f in futs.items():
            e = f.exception()
            if e is None or o not in mine:
                continue
            if not isinstance(e, CompileError):
                raise e
            alt = b.get('fallback', {}).get(os.path.basename(e.src))
            if alt and e.internal:
                # the unit reaches into an internal component whose interface changed: explore through the public interface only
                o2 = os.path.join(bd, alt[:-4] + '.%s.o' % dt)
                compile_one(os.path.join(H, alt), o2, [*flags, opt, *defs])
                objs = [o2 if x == o else x for x in objs]
                dropped.append(os.path.basename(e.src))
            else:
                errs2.append(e)
        if errs2:
            raise errs2[0]
        exe = os.path.join(bd, '%s-%s' % (cid, b['name']))
        if not os.path.exists(exe) or any(os.path.getmtime(o) > os.path.getmtime(exe) for o in objs):
            rc, log = run(['clang++', '-pthread', *(SAN if san else []), *b.get('flags', []), '-o', exe + '.tmp', *objs, *b.get('link', [])], timeout=600)
            if rc:
                rc, log2 = run(['g++', '-pthread', *([x for x in SAN if 'line-tables' not in x and 'ignorelist' not in x] if san else []), *b.get('flags', []), '-o', exe + '.tmp', *objs, *b.get('link', [])], timeout=600)
                if rc:
                    raise Broken('link failed:\n' + log[:3000])
            os.replace(exe + '.tmp', exe)
        bins.append((b, exe, dropped))
    return bins


def known(cid):
    out = []
    with open(os.path.join(ROOT, 'KNOWN_FINDINGS.jsonl')) as f:
        for line in f:
            line = line.strip()
            if line:
                e = json.loads(line)
                if e.get('status') == 'known' and e['property'] == cid:
                    out.append(e)
    return out


def env_for(b):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=%d:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=12:handle_abort=1' % (1 if b.get('leaks') else 0)
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    e['LC_ALL'] = 'C'
    e['TZ'] = 'UTC'
    e.pop('LD_PRELOAD', None)
    return e


def check(cid, tier):
    t0 = time.time()
    c = CHECKS[cid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    violations, cov, samples, notes = [], {}, [], []
    extra = {}
    complete = True
    out = tempfile.mkdtemp(prefix='out-%s-' % cid, dir=BUILD)
    try:
        try:
            bins = build(cid, tier)
        except CompileError as e:
            ok, log = sanity()
            if not ok or e.internal:
                print('%s: cannot compile %s\n%s' % (cid, e.src, e.log), file=sys.stderr)
                return 2
            violations.append({'bin': '', 'unit': 'compile', 'case': os.path.basename(e.src),
                               'detail': 'a use of the public interface that is required to compile does not compile:\n' + e.log})
            bins = []
            cov = {'evaluations': 1, 'distinct': 1}
            complete = False
        for b, exe, dropped in bins:
            o = os.path.join(out, b['name'])
            os.makedirs(o)
            cmd = [exe, '--tier', tier, '--out', o, '--workers', str(b.get('workers', JOBS)), *b.get('args', [])]
            # the explorer stops by itself when the time is used up and reports how far it came
            if tier == 'quick':
                budget = max(20, QUICK_BUDGET - (time.time() - t0))
                cmd += ['--budget', '%d' % budget]
            else:
                budget = b.get('limit', {}).get(tier, 6 * 3600)
            if not any(e for e in known(cid)):
                cmd += ['--stop-early', '45']
            lim = budget + 60
            try:
                p = subprocess.Popen(cmd, env=env_for(b), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
                try:
                    log, _ = p.communicate(timeout=lim)
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    print('%s: time limit of %s s reached' % (cid, lim), file=sys.stderr)
                    rc, log = 3, 'time limit'
            finally:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
            vf = os.path.join(o, 'violations.jsonl')
            if os.path.exists(vf):
                for line in open(vf, errors='replace'):
                    try:
                        v = json.loads(line)
                    except ValueError:
                        continue
                    v['bin'] = b['name']
                    violations.append(v)
            if rc not in (0, 1):
                if not violations:
                    print('%s: explorer %s ended with status %d\n%s' % (cid, b['name'], rc, log[-3000:]), file=sys.stderr)
                    return 2
                complete = False
            sf = os.path.join(o, 'samples.jsonl')
            if os.path.exists(sf):
                samples += [json.loads(x) for x in open(sf, errors='replace')][:8]
            cf = os.path.join(o, 'coverage.json')
            if os.path.exists(cf):
                k = json.load(open(cf))
                for f in ('evaluations', 'distinct', 'states', 'transitions', 'traces', 'units'):
                    cov[f] = cov.get(f, 0) + k.get(f, 0)
                for n, x in k.get('extra', {}).items():
                    extra[n] = extra.get(n, 0) + x
                complete = complete and k.get('complete', False)
                if k.get('units_done', k.get('units', 0)) < k.get('units', 0):
                    notes.append('%s: stopped after %d of %d units of work' % (b['name'], k['units_done'], k['units']))
            if dropped:
                notes.append('internal interface changed; explored through the public interface only: ' + ', '.join(dropped))
        # known findings
        kf = known(cid)
        hit, fresh = set(), []
        for v in violations:
            m = None
            for e in kf:
                if re.fullmatch(e['match']['unit'], v['unit'], re.S) and re.fullmatch(e['match']['case'], v['case'], re.S) and re.fullmatch(e['match']['detail'], v['detail'], re.S):
                    m = e
                    break
            if m is None:
                fresh.append(v)
            else:
                hit.add(m['what'])
        for w in sorted(hit):
            print('KNOWN-FINDING: property=%s %s' % (cid, w))
        coverage = {'samples': samples[:10] or ['(none)'], 'rule': c['rule'], 'units_of_work': cov.get('units', 0), 'exhaustive': bool(complete)}
        if c['level'] == 'model_checking':
            coverage.update(states=cov.get('states', 0), transitions=cov.get('transitions', 0), traces_validated_against_impl=cov.get('traces', 0), evaluations=cov.get('evaluations', 0), distinct_nontrivial=cov.get('distinct', 0))
        else:
            coverage.update(evaluations=cov.get('evaluations', 0), distinct_nontrivial=cov.get('distinct', 0))
        coverage.update(extra)
        if notes:
            coverage['notes'] = notes
        ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': c['level'], 'coverage': coverage,
              'assumptions': c.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
        with open(os.path.join(EVID, cid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        if fresh:
            rp = os.path.join(EVID, '%s.replay.json' % cid)
            fresh.sort(key=lambda v: (len(v['case']) + len(v['detail'])))
            with open(rp, 'w') as f:
                json.dump({'property': cid, 'tier': tier, 'how': 'python3 run.py replay ' + rp, 'violations': fresh[:20]}, f, indent=1)
            for v in fresh[:3]:
                print('  [%s] %s\n    case: %s\n    %s' % (v['bin'], v['unit'], v['case'][:400], v['detail'][:1500].replace('\n', '\n    ')))
            print('VIOLATION property=%s replay=%s' % (cid, rp))
            return 1
        print('%s: property held on everything explored (%s, %.1f s): %s' % (cid, tier, time.time() - t0,
              ', '.join('%s=%s' % (k, v) for k, v in coverage.items() if isinstance(v, int))))
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


def replay(path):
    r = json.load(open(path))
    cid = r['property']
    bins = {b['name']: (b, exe) for b, exe, _ in build(cid, r['tier'])}
    rc = 0
    done = set()
    for v in r['violations']:
        if (v['bin'], v['unit']) in done or v['bin'] not in bins:
            continue
        done.add((v['bin'], v['unit']))
        b, exe = bins[v['bin']]
        o = tempfile.mkdtemp(prefix='replay-', dir=BUILD)
        p = subprocess.run([exe, '--tier', r['tier'], '--out', o, '--workers', '1', '--unit', v['unit'], *b.get('args', [])], env=env_for(b), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        vf = os.path.join(o, 'violations.jsonl')
        print('unit %s: status %d' % (v['unit'], p.returncode))
        if os.path.exists(vf):
            rc = 1
            for line in open(vf):
                w = json.loads(line)
                print('  case: %s\n    %s' % (w['case'], w['detail']))
        shutil.rmtree(o, ignore_errors=True)
    return rc


def main():
    a = sys.argv[1:]
    if not a or a[0] == 'list':
        print(' '.join(sorted(CHECKS)))
        return 0
    if a[0] == 'setup':
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        ok, log = sanity()
        if not ok:
            print(log)
            return 1
        return 0
    if a[0] == 'replay':
        return replay(a[1])
    if a[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a:
            tier = a[a.index('--tier') + 1]
        try:
            return check(a[1], tier)
        except Broken as e:
            print('%s: the check is broken: %s' % (a[1], e), file=sys.stderr)
            return 2
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
