#!/usr/bin/env python3
"""check.py <ID> [--replay FILE]: decide one property on /repo's working tree.

Builds the property's test binary from /verif/harness (which imports the code
under test from /repo), runs it, writes /verif/evidence/<ID>.json and exits
0 (held on everything explored), 1 (VIOLATION line printed) or 3 (no answer).
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, 'harness')
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402


def go_env():
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE).stdout
    env = dict(kv.split('=', 1) for kv in out.decode('utf-8', 'replace').split('\0') if '=' in kv)
    env.update(GOFLAGS='-mod=mod', GOSUMDB='off', GOTOOLCHAIN='local', GOWORK='off')
    return env


def no_answer(msg):
    print('ERROR', msg)
    sys.exit(3)


def build(check, env, scratch):
    # go.mod and go.sum are copied so that a build never rewrites the committed ones
    modfile = os.path.join(scratch, 'go.mod')
    shutil.copy(os.path.join(HARNESS, 'go.mod'), modfile)
    shutil.copy(os.path.join(HARNESS, 'go.sum'), os.path.join(scratch, 'go.sum'))
    binary = os.path.join(scratch, 'check.test')
    cmd = ['go', 'test', '-c', '-vet=off', '-modfile', modfile, '-o', binary]
    if check.get('race'):
        cmd += ['-race']
    cmd += check.get('build_flags', []) + ['./' + check['pkg']]
    try:
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    except subprocess.TimeoutExpired:
        no_answer('build timed out')
    if p.returncode != 0:
        sys.stdout.write(p.stdout.decode('utf-8', 'replace'))
        no_answer('build failed')
    return binary


def main():
    sys.stdout.reconfigure(encoding='utf-8', errors='replace')
    ident = sys.argv[1]
    replay = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == '--replay' else None
    check = CHECKS[ident]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    start = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % ident)
    try:
        code = run(ident, check, tier, seed, start, scratch, replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def run(ident, check, tier, seed, start, scratch, replay):
    env = go_env()
    binary = build(check, env, scratch)
    work = os.path.join(scratch, 'work')
    os.makedirs(work)
    tmp = os.path.join(scratch, 'tmp')
    os.makedirs(tmp)
    for path in (scratch, tmp):
        os.chmod(path, 0o711)  # some checks use the files as an unprivileged user
    stats_file = os.path.join(scratch, 'stats.json')
    case_file = os.path.join(scratch, 'case.txt')
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_STATS=stats_file, VERIF_CASE=case_file,
               TMPDIR=tmp, GOTRACEBACK='all')
    env.update(check.get('env', {}))
    if check.get('race'):
        env['GORACE'] = 'halt_on_error=1 exitcode=66'
    if tier == 'thorough':
        env['VERIF_MULT'] = str(check.get('mult', 20))
    limit = 820 if tier == 'quick' else 3 * 3600
    args = [binary, '-test.run', '^Test%s_' % ident, '-test.timeout', '0', '-rapid.shrinktime', '20s']
    if replay:
        meta = json.load(open(replay))
        if not meta.get('failfile'):
            env['VERIF_SEED'] = str(meta['seed'])
        else:
            fail = os.path.join(scratch, 'replay.fail')
            with open(fail, 'w', encoding='utf-8', errors='surrogateescape') as f:
                f.write(meta['failfile'])
            args += ['-rapid.failfile', fail]
        args[2] = '^%s$' % meta['test'] if meta.get('test') else args[2]
    log_file = os.path.join(scratch, 'log.txt')
    with open(log_file, 'wb') as log:
        proc = subprocess.Popen(args, cwd=work, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            code = proc.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            code = None
        finally:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
    proc.wait()
    log = open(log_file, 'rb').read().decode('utf-8', 'replace')
    if code is None:
        sys.stdout.write(log[-4000:])
        no_answer('time budget of %d s used up' % limit)
    stats = json.load(open(stats_file, encoding='utf-8', errors='replace')) if os.path.exists(stats_file) else None
    if code == 0:
        if not stats or any(s['evaluations'] == 0 for s in stats):
            sys.stdout.write(log[-4000:])
            no_answer('nothing was checked')
        if replay:
            print('replay passes')
            return 0
        write_evidence(ident, check, tier, seed, start, stats, 0)
        total = sum(s['evaluations'] for s in stats)
        print('OK property=%s cases=%d seed=%d tier=%s %.1fs' % (ident, total, seed, tier, time.time() - start))
        return 0
    if code in (96, -signal.SIGKILL) or code == 2 and out_of_resources(log):
        sys.stdout.write(log[-6000:])
        no_answer('harness or resource failure (exit %s)' % code)
    # a failing property, a hang, runaway memory, a data race or a crash of the process
    case = ''
    if os.path.exists(case_file):
        raw = open(case_file, 'rb').read()
        if len(raw) >= 10:
            case = raw[10:10 + int(raw[:10])].decode('utf-8', 'replace')
    failed = re.search(r'--- FAIL: (Test\w+)', log)
    kind = 'counterexample'
    if code == 97:
        kind = 'hang or runaway memory'
    elif code == 66:
        kind = 'data race'
    elif not failed:
        kind = 'crash'
    test = failed.group(1) if failed else case.split(':', 1)[0]
    if kind == 'crash' and not case:
        sys.stdout.write(log[-6000:])
        no_answer('test binary failed before the first case (exit %s)' % code)
    failfile = ''
    for root, _, names in os.walk(os.path.join(work, 'testdata')):
        for name in sorted(names):
            if name.endswith('.fail') and (not test or test in name):
                # holds the raw output of the test, which need not be text
                failfile = open(os.path.join(root, name), encoding='utf-8', errors='surrogateescape').read()
    report = {'property': ident, 'test': test, 'kind': kind, 'exit': code, 'seed': seed, 'tier': tier,
              'case_under_way': case, 'failfile': failfile, 'log': log[:60000]}
    body = json.dumps(report, indent=1)
    if replay:
        path = replay
    else:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', '%s-%s.json' % (ident, hashlib.sha1(body.encode()).hexdigest()[:10]))
        open(path, 'w').write(body)
    write_evidence(ident, check, tier, seed, start, stats or [], 1)
    sys.stdout.write(log[:5000] + ('\n...\n' if len(log) > 5000 else '') + '\n')
    print('VIOLATION property=%s replay=%s' % (ident, path))
    return 1


def out_of_resources(log):
    """Whether the process ended for want of memory that it can rightly expect to get."""
    out = re.search(r'^(fatal error|runtime): .*(cannot allocate memory|out of memory)', log, re.M)
    if not out:
        return False
    sizes = [int(n) for n in re.findall(r'^runtime: out of memory: cannot allocate (\d+)-byte block', log, re.M)]
    sizes += [int(n) for n in re.findall(r'^runtime: out of memory: cannot allocate \d+-byte block \((\d+) in use\)', log, re.M)]
    sizes += [int(n, 16) for n in re.findall(r'^runtime\.sys\w+\(0x[0-9a-f]+\??, 0x([0-9a-f]+)', log, re.M)]
    # gigabytes at once or in use are the doing of the code under test
    return max(sizes, default=0) < 4 << 30


def write_evidence(ident, check, tier, seed, start, stats, violations):
    samples = []
    for s in stats:
        for sample in (s['samples'] or [])[-4:]:
            samples.append('%s: %s' % (s['test'], sample))
    evidence = {
        'property': ident, 'tier': tier, 'seed': seed, 'level': check.get('level', 'exploration'),
        'coverage': {
            'evaluations': sum(s['evaluations'] for s in stats),
            'distinct_nontrivial': sum(s['distinct_nontrivial'] for s in stats),
            'rule': ' | '.join('%s: %s' % (s['test'], s['rule']) for s in stats),
            'samples': samples,
            'per_test': {s['test']: {'evaluations': s['evaluations'], 'nontrivial': s['nontrivial'],
                                     'distinct_nontrivial': s['distinct_nontrivial'],
                                     'classes': s['labels']} for s in stats},
        },
        'assumptions': check.get('assumptions', []),
        'wall_s': round(time.time() - start, 2),
        'violations': violations,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', ident + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
    os.replace(path + '.tmp', path)


if __name__ == '__main__':
    main()
