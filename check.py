#!/usr/bin/env python3
"""Decide one property of iboB/xmem by generated-input search.

  check.py C05              run the check (VERIF_SEED, VERIF_TIER from the environment)
  check.py --replay FILE    re-run a failing case, explaining it
  check.py --setup          build the harnesses of all quick checks

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Anything else: error of the check.
"""
import concurrent.futures, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('XMEM_REPO', '/repo')
CODE = os.path.join(REPO, 'code')
SRC = os.path.join(VERIF, 'src')
BUILD = os.path.join(VERIF, 'build')
sys.path.insert(0, VERIF)
from props import PROPS, HARNESSES, VARIANTS   # noqa: E402

KNOWN = os.path.join(VERIF, 'known_findings.txt')


class BuildError(Exception):
    def __init__(self, log, broken_tree):
        super().__init__(log)
        self.log, self.broken_tree = log, broken_tree


def hash_files(files):
    h = hashlib.sha256()
    for p in files:
        h.update(os.path.basename(p).encode() + b'\0')
        with open(p, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def code_hash():
    """Identifies the state of the code under test."""
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(CODE)):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, CODE).encode() + b'\0')
            with open(p, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def closure(name, seen=None):
    """The files of src which the given one is made of."""
    seen = seen if seen is not None else []
    p = os.path.join(SRC, name)
    if p not in seen:
        seen.append(p)
        with open(p) as fh:
            for m in re.finditer(r'^\s*#\s*include\s+"([^"]+)"', fh.read(), re.M):
                closure(m.group(1), seen)
    return seen


def real_diagnostic(log):
    """Does the compiler or linker complain about the program (and not about the disk or the memory)?"""
    for line in log.splitlines():
        if re.search(r'No space left|unable to|error writing|annot allocate memory|out of memory', line):
            continue
        if re.search(r'^[^\s:]+:\d+(:\d+)?: (fatal )?error:|undefined reference|undefined symbol', line):
            return True
    return False


def compile_one(cmd, out):
    tmp = out + '.tmp%d' % os.getpid()
    for attempt in range(3):
        r = subprocess.run(cmd + ['-o', tmp], capture_output=True, text=True)
        if r.returncode == 0:
            os.replace(tmp, out)
            return None
        if real_diagnostic(r.stderr):
            break          # trying again changes nothing
        os.makedirs(os.path.dirname(out), exist_ok=True)
    return ' '.join(cmd) + '\n' + r.stderr[-12000:]


def headers_alone(cxx, std):
    """Do the headers of the library compile without a harness? Returns the log when not."""
    hdrs = sorted(os.path.relpath(p, CODE) for p in glob.glob(os.path.join(CODE, 'xmem', '*.hpp')))
    src = '#include <cstdint>\n#include <string>\n#include <vector>\n' + ''.join('#include <%s>\n' % h for h in hdrs) + 'int main(){}\n'
    r = subprocess.run([cxx, '-std=' + std, '-x', 'c++', '-fsyntax-only', '-I' + CODE, '-'], input=src, capture_output=True, text=True)
    return r.stderr if r.returncode else None


def build(harness, variant):
    """Build the harness against the working tree of the repository; returns the binary."""
    hs, v = HARNESSES[harness], VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    key = code_hash()
    # outputs of older trees only take up space
    with open(os.path.join(BUILD, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for d in glob.glob(os.path.join(BUILD, 't-*')):
            if os.path.basename(d) != 't-' + key and time.time() - os.path.getmtime(d) > 7200:
                shutil.rmtree(d, ignore_errors=True)
        out = os.path.join(BUILD, 't-' + key, variant)
        os.makedirs(out, exist_ok=True)
        os.utime(os.path.dirname(out))
        jobs, objs = [], []
        for unit in hs['units']:
            name, extra, kind = unit if isinstance(unit, tuple) else (unit, [], 'main')
            uv = v.get(kind, v['main'])
            flags = uv['flags'] + ['-I' + CODE, '-I' + SRC] + extra
            tag = hashlib.sha256(' '.join([name, uv['cxx'], hash_files(closure(name + '.cpp'))] + flags).encode()).hexdigest()[:12]
            obj = os.path.join(out, '%s-%s.o' % (name, tag))
            objs.append(obj)
            if not os.path.exists(obj):
                jobs.append(([uv['cxx']] + flags + ['-c', os.path.join(SRC, name + '.cpp')], obj))
        binary = os.path.join(out, harness + '-' + hashlib.sha256(' '.join(objs).encode()).hexdigest()[:8])
        if os.path.exists(binary):
            return binary
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            errs = [e for e in ex.map(lambda j: compile_one(*j), jobs) if e]
        if errs:
            raise BuildError('\n\n'.join(errs), True)
        err = compile_one([v['link'][0]] + v['link'][1:] + objs + hs.get('libs', []), binary)
        if err:
            raise BuildError(err, True)
        return binary


def env_for_run():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1:exitcode=78'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=79:report_signal_unsafe=0'
    return e


def fails(rc):
    return rc not in (0, 3, 4)


def rerun(binary, prop, f, shards, seed):
    """Run the failing case in a fresh process; returns its (rc, log)."""
    if f['kind'] == 'case':
        cmd = [binary, 'case', '--prop', prop, '--hex', f['case'], '--verbose', '1']
    else:
        cmd = [binary, 'batch', '--prop', prop, '--seed', str(f.get('seed', seed)), '--upto', str(f['index']), '--shards', str(f.get('shards', shards)), '--shard', str(f['shard'])]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=env_for_run(), timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-8000:]
    except subprocess.TimeoutExpired:
        return 0, 'no end within 300 s'


def known_findings(prop):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) case=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def write_json(path, d):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as fh:
        json.dump(d, fh, indent=1)
        fh.write('\n')
    os.replace(tmp, path)


def check(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = int(hashlib.sha256(os.environ['VERIF_SEED'].encode()).hexdigest()[:8], 16)
    seed &= (1 << 62) - 1
    p = PROPS[prop]
    runs = p[tier]
    budget = 700 if tier == 'quick' else 6 * 3600
    shards = 8
    evaluations = distinct = 0
    labels, samples, parts, violations = {}, [], [], []
    notes = []
    for run in runs:
        name, variant, cases = run['harness'], run['variant'], run['cases']
        try:
            binary = build(name, variant)
        except BuildError as e:
            log = headers_alone(VARIANTS[variant]['main']['cxx'], 'c++17')
            if not real_diagnostic(e.log):
                sys.stderr.write(e.log)
                sys.exit(2)
            f = {'kind': 'build', 'harness': name, 'variant': variant, 'property': prop, 'seed': seed,
                 'msg': 'a program using the documented interface no longer compiles' if log is None else 'the headers no longer compile',
                 'log': e.log}
            violations.append((f, f['msg']))
            parts.append({'harness': name, 'variant': variant, 'evaluations': 0, 'build': 'failed'})
            break
        left = max(20.0, min(run.get('maxtime', 240.0 if tier == 'quick' else 7200.0), budget - (time.time() - t0)))
        out = os.path.join(BUILD, 'out-%s-%s-%s-%d.json' % (prop, name, variant, os.getpid()))
        rp = run.get('prop', prop)
        cmd = [binary, 'run', '--prop', rp, '--seed', str(seed + run.get('seed_add', 0)), '--cases', str(cases), '--shards', str(shards), '--out', out, '--maxtime', '%d' % left]
        r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=env_for_run())
        if r.returncode not in (0, 1, 4) or not os.path.exists(out):
            sys.stderr.write('engine error: rc %d\n%s\n' % (r.returncode, (r.stdout + r.stderr)[-4000:]))
            sys.exit(2)
        d = json.load(open(out))
        os.unlink(out)
        evaluations += d['evaluations']
        distinct += d['distinct_nontrivial']
        pl = '' if len(runs) == 1 else run.get('label', name) + ': '
        for k, n in d['labels'].items():
            labels[pl + k] = labels.get(pl + k, 0) + n
        for s in d['samples'][:2 if len(runs) > 1 else 3]:
            samples.append(pl + s)
        parts.append({'harness': name, 'variant': variant, 'evaluations': d['evaluations'], 'nontrivial': d['nontrivial'], 'distinct_nontrivial': d['distinct_nontrivial'], 'wall_s': round(d['wall_s'], 1), 'stopped_by_time': d['timeout']})
        if d['timeout']:
            notes.append('%s (%s): stopped by its time limit after %d of %d cases' % (name, variant, d['evaluations'], cases))
        f = d.get('failure')
        if f:
            f.update({'property': prop, 'harness': name, 'variant': variant, 'seed': seed + run.get('seed_add', 0), 'engine_prop': rp})
            res = [rerun(binary, rp, f, shards, seed) for _ in range(3)]
            n = sum(fails(rc) for rc, _ in res)
            f['replayed'] = '%d of 3' % n
            if n:
                f['log'] = [l for rc, l in res if fails(rc)][0]
                violations.append((f, f.get('msg', '')))
                break
            notes.append('%s: a failure did not reproduce in 3 runs and is not reported: %s' % (name, f.get('msg', '')[:300]))
    # known findings
    known = known_findings(prop)
    reported = []
    for f, msg in violations:
        k = [t for c, t in known if c == f.get('case')]
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, k[0]))
        else:
            reported.append((f, msg))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': p['level'],
        'coverage': {
            'evaluations': evaluations, 'distinct_nontrivial': distinct, 'rule': p['rule'], 'samples': samples[:8] or ['none: the harness did not build'],
            'labels': labels, 'runs': parts,
        },
        'assumptions': p['assumptions'] + notes, 'wall_s': round(time.time() - t0, 1), 'violations': len(reported),
    }
    write_json(os.path.join(VERIF, 'evidence', prop + '.json'), ev)
    for f, msg in reported:
        h = hashlib.sha256(json.dumps(f, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, h))
        write_json(path, f)
        print('property %s is broken: %s' % (prop, msg[:2000]))
        if f.get('describe'):
            print('  minimal case: %s' % f['describe'][:2000])
        print('  explain it with: python3 check.py --replay %s' % path)
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if reported:
        return 1
    print('%s held on %d generated cases (%d distinct non-trivial), %s, seed %d, %.0f s' % (prop, evaluations, distinct, tier, seed, time.time() - t0))
    return 0


def replay(path):
    f = json.load(open(path))
    if f['kind'] == 'build':
        try:
            build(f['harness'], f['variant'])
        except BuildError as e:
            print(e.log)
            return 1
        print('it builds')
        return 0
    binary = build(f['harness'], f['variant'])
    rc, log = rerun(binary, f.get('engine_prop', f['property']), f, 8, f['seed'])
    print(log)
    print('fails' if fails(rc) else 'passes', '(exit %d)' % rc)
    return 1 if fails(rc) else 0


def main():
    if len(sys.argv) == 3 and sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) == 2 and sys.argv[1] == '--setup':
        todo = sorted({(r['harness'], r['variant']) for p in PROPS.values() for r in p['quick']})
        for h, v in todo:
            try:
                build(h, v)
                print('built', h, v)
            except BuildError as e:
                # the checks report it
                print('did not build:', h, v, '\n', e.log[-3000:])
        sys.exit(0)
    if len(sys.argv) != 2 or sys.argv[1] not in PROPS:
        print(__doc__)
        sys.exit(2)
    sys.exit(check(sys.argv[1]))


if __name__ == '__main__':
    main()
