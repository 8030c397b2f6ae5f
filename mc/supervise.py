"""Runs one check: exploration in a child process, verdict and evidence here.

Exit 0: held on everything explored (known findings are named). Exit 1: VIOLATION line printed.
Exit 2: the check itself could not answer.
"""
import hashlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIMIT = {'quick': 840, 'thorough': 6 * 3600}


def known_findings(prop):
    """ known_findings.txt: `finding: property=<id> match=<substring of the violation> :: text`
        and `fixed: property=<id> <commit> <what failed>` (which suppresses nothing) """
    found = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf8') as f:
            for line in f:
                if line.startswith('finding: property={} '.format(prop)):
                    rest = line.split('match=', 1)[1]
                    key, text = rest.split(' :: ', 1)
                    found.append((key.strip(), text.strip()))
    return found


def explore(prop, tier, out):
    """ The child: runs the explorer and writes what it saw """
    sys.path.insert(0, VERIF)
    import importlib
    import traceback
    import warnings
    warnings.simplefilter('ignore')
    from mc import harness, target
    module = importlib.import_module('checks.' + prop.lower())
    ck = harness.Check(prop, tier, marker=out + '.mark')
    result = {}
    scratch = tempfile.mkdtemp(prefix='vscratch-')
    os.chdir(scratch)
    try:
        try:
            target.install(extensions=getattr(module, 'NEEDS_EXTENSIONS', True))
        except target.BuildError as e:
            result['error'] = 'build of the C++ modules failed: ' + str(e)[-3000:]
            return result
        try:
            module.explore(ck, tier)
        except harness.Refuted:
            pass
        except harness.Infrastructure as e:
            result['error'] = str(e)
        except BaseException:
            result['error'] = traceback.format_exc()
        result.update(ck.summary())
        result['assumptions'] = list(getattr(module, 'ASSUMPTIONS', []))
        result['bounds'] = getattr(module, 'BOUNDS', {}).get(tier) if hasattr(module, 'BOUNDS') else None
        result['exhaustive'] = bool(getattr(module, 'EXHAUSTIVE', True))
        return result
    finally:
        os.chdir('/')
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
        with open(out + '.tmp', 'w') as f:
            json.dump(result, f)
        os.replace(out + '.tmp', out)


def main(argv):
    prop = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in LIMIT:
        tier = 'quick'
    if len(argv) > 2 and argv[2] == '--child':
        explore(prop, tier, argv[3])
        sys.stdout.flush()
        os._exit(0)
    t0 = time.time()
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    work = tempfile.mkdtemp(prefix='vcheck-')
    out = os.path.join(work, 'result.json')
    log = os.path.join(work, 'log')
    env = dict(os.environ)
    # The configuration of pyBBN is read from the environment: start from a clean one
    keep = {'PATH', 'HOME', 'LANG', 'TMPDIR', 'USER'}
    env = {k: v for k, v in env.items() if k in keep or k.startswith(('PYTHON', 'VERIF_', 'LC_')) or k.endswith('_NUM_THREADS')}
    with open(log, 'wb') as lf:
        child = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'mc.supervise', prop, tier, '--child', out],
                                 cwd=VERIF, env=env, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
        timed_out = False
        try:
            child.wait(timeout=LIMIT[tier])
        except subprocess.TimeoutExpired:
            timed_out = True
        try:
            os.killpg(child.pid, signal.SIGKILL)
        except OSError:
            pass
        child.wait()
    result, marked = {}, None
    if os.path.exists(out):
        with open(out) as f:
            result = json.load(f)
    try:
        with open(out + '.mark') as f:
            marked = json.load(f)
    except (OSError, ValueError):
        pass
    with open(log, 'rb') as f:
        text = f.read().decode('utf8', 'replace')
    for fn in os.listdir(work):
        os.unlink(os.path.join(work, fn))
    os.rmdir(work)

    violations = list(result.get('violations', []))
    total = int(result.get('n_violations', 0))
    error = result.get('error')
    if not result:
        if timed_out:
            error = 'no answer within {} s; last marked case: {}'.format(LIMIT[tier], marked)
        elif child.returncode < 0 and -child.returncode not in (signal.SIGKILL, signal.SIGTERM):
            violations.append({'message': 'the process died with signal {}'.format(-child.returncode),
                               'case': marked and marked.get('case'), 'detail': text[-500:]})
            total = 1
        else:
            error = 'the explorer ended with {} and no result: {}'.format(child.returncode, text[-2000:])

    findings = known_findings(prop)
    fresh, seen = [], set()
    for v in violations:
        blob = json.dumps(v, ensure_ascii=False, sort_keys=True)
        hit = [t for k, t in findings if k in blob]
        if hit:
            seen.update(hit)
        else:
            fresh.append(v)

    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': dict(result.get('coverage') or {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}),
        'assumptions': result.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(fresh) and max(total, len(fresh)),
    }
    evidence['coverage']['exhaustive'] = bool(result.get('exhaustive', False)) and not violations and not error
    if result.get('bounds'):
        evidence['coverage']['bounds'] = result['bounds']
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)

    for t in sorted(seen):
        print('KNOWN-FINDING: property={} {}'.format(prop, t))
    if fresh:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        body = json.dumps({'property': prop, 'tier': tier, 'violations': fresh,
                           'how': './check {} {} re-explores the same space deterministically; the case above is '
                                  'the first one refuted'.format(prop, tier)}, indent=1, ensure_ascii=False)
        path = os.path.join(VERIF, 'replays', '{}-{}.json'.format(prop, hashlib.sha256(body.encode()).hexdigest()[:12]))
        with open(path, 'w') as f:
            f.write(body)
        for v in fresh:
            print('  {} | case {} | {}'.format(v['message'], json.dumps(v['case'], ensure_ascii=False)[:400],
                                                json.dumps(v['detail'], ensure_ascii=False)[:400]))
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if error:
        print('ERROR property={}: {}'.format(prop, error))
        return 2
    c = evidence['coverage']
    print('OK property={} tier={} states={} transitions={} traces={} outcomes={} wall={}s'.format(
        prop, tier, c['states'], c['transitions'], c['traces_validated_against_impl'], c.get('distinct_outcomes'),
        evidence['wall_s']))
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
