#!/usr/bin/env python3
"""run.py <property> [quick|thorough] [--only build:group:index] [--verbose]

Builds the harnesses a property needs from /repo's working tree, explores their bounded spaces
exhaustively, writes evidence/<property>.json and prints VIOLATION / KNOWN-FINDING lines.
Exit: 0 held on everything explored, 1 violated, 2 the check itself could not run."""
import hashlib, json, os, subprocess, sys, time
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('LIBRA_REPO', '/repo')
from props import PROPS, BUILDS

BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))

def repo_digest(h):
    for top in ('src', 'include', 'bin', 'tests'):
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.cpp', '.h', '.hpp', '.c', '.py')):
                    p = os.path.join(root, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    for f in sorted(os.listdir(REPO)):
        if f.endswith('.cpp'):
            h.update(f.encode()); h.update(open(os.path.join(REPO, f), 'rb').read())

def digest(name):
    h = hashlib.sha256()
    repo_digest(h)
    for d in ('lib', 'h'):
        for root, dirs, files in os.walk(os.path.join(HERE, d)):
            dirs.sort()
            for f in sorted(files):
                h.update(f.encode()); h.update(open(os.path.join(root, f), 'rb').read())
    h.update(json.dumps(BUILDS[name], sort_keys=True).encode())
    h.update(REPO.encode())
    return h.hexdigest()[:24]

def build(name):
    """-> (path of the binary, None) or (None, error)"""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, '%s.%s' % (name, digest(name)))
    if os.path.exists(out):
        return out, None
    for f in os.listdir(BUILD):
        if f.startswith(name + '.'):
            try: os.remove(os.path.join(BUILD, f))
            except OSError: pass
    tmp = out + '.tmp%d' % os.getpid()
    cmd = BUILDS[name].replace('@REPO', REPO).replace('@HERE', HERE).replace('@OUT', tmp)
    r = subprocess.run(['bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=HERE)
    if r.returncode:
        return None, cmd + '\n' + r.stdout.decode(errors='replace')[-4000:]
    os.rename(tmp, out)
    return out, None

def known():
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            if line.startswith('known: '):
                head, _, at = line[7:].partition(' at: ')
                pid = head.split()[0].split('=', 1)[1]
                res.append((pid, head[len(head.split()[0]) + 1:], at))
    return res

def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    only = None; verbose = '--verbose' in sys.argv
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1]; args.remove(only)
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    P = PROPS[pid]
    t0 = time.time()
    # the harnesses know three depths; a property chooses the one of its quick command
    depth = P.get('quick', 'quick') if tier == 'quick' else 'deep'
    from concurrent.futures import ThreadPoolExecutor
    names = [p[0] for p in P['parts']]
    if only: names = [only.split(':')[0]]
    need = sorted(set(names) | set(P.get('programs', [])))
    # harnesses that run the repository's stand-alone programs get them built first, and their paths in the environment
    with ThreadPoolExecutor(8) as ex:
        built = dict(zip(need, ex.map(build, need)))
    for n in need:
        if built[n][1]:
            print('cannot build harness %s:\n%s' % (n, built[n][1])); sys.exit(2)
    tot = {}; points = 0; groups = {}; samples = []; viols = []; infra = False
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    for name, grps in P['parts']:
        if only and name != only.split(':')[0]: continue
        res = os.path.join(BUILD, 'result.%s.%d.json' % (name, os.getpid()))
        cmd = [built[name][0], '--tier', depth, '--out', res, '--groups', ','.join(grps)]
        if only: cmd += ['--only', only.split(':', 1)[1]]
        if verbose: cmd.append('--verbose')
        env = dict(os.environ, LIBRA_REPO=REPO, **{'PROGRAM_' + n: built[n][0] for n in P.get('programs', [])},  ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:alloc_dealloc_mismatch=1', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1')
        r = subprocess.run(cmd, env=env, cwd=BUILD)
        if not os.path.exists(res):
            print('harness %s gave no result (exit %d)' % (name, r.returncode)); sys.exit(2)
        d = json.load(open(res)); os.remove(res)
        points += d['points']; infra |= d['infra']
        for k, v in d['counters'].items(): tot[k] = tot.get(k, 0) + v
        for k, v in d['groups'].items(): groups[name + '.' + k] = v
        samples += [name + '/' + s for s in d['samples']]
        for v in d['violations']: viols.append(dict(v, build=name))
    kn = [k for k in known() if k[0] == pid]
    new = []; seen = set()
    for v in viols:
        at = v['text'].split('\nat: ')[-1]
        hit = [k for k in kn if k[2] and at == k[2]]
        if hit: seen.add(hit[0])
        else: new.append(v)
    for k in sorted(seen):
        print('KNOWN-FINDING: property=%s %s' % (pid, k[1]))
    if infra and not new:
        print('a worker ended outside the explored points'); sys.exit(2)
    wall = time.time() - t0
    if only is None:
        m = P['measure']
        cov = {'states': points if m['states'] == 'points' else sum(tot.get(k, 0) for k in m['states']),
               'transitions': sum(tot.get(k, 0) for k in m['transitions']),
               'traces_validated_against_impl': points if m['traces'] == 'points' else sum(tot.get(k, 0) for k in m['traces']),
               'exhaustive': not new and not tot.get('interleavings_beyond_budget'), 'points': points, 'points_per_group': groups, 'counters': tot,
               'rule': P['rule'], 'samples': samples[:40]}
        ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': P['level'], 'coverage': cov,
              'assumptions': P['assumptions'], 'wall_s': round(wall, 2), 'violations': len(new)}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if not only and points == 0:
        print('nothing was explored'); sys.exit(2)
    if new:
        for i, v in enumerate(new[:3]):
            rp = os.path.join(HERE, 'replays', '%s-%d.txt' % (pid, i))
            with open(rp, 'w') as f:
                f.write('%s\n\nreplay: python3 %s %s %s --only %s:%s:%d --verbose\n' % (v['text'], os.path.join(HERE, 'run.py'), pid, tier, v['build'], v['group'], v['index']))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            print('  ' + v['text'].replace('\n', '\n  ')[:1500])
        sys.exit(1)
    print('%s %s: held on %d points (%s) in %.1f s' % (pid, tier, points, ', '.join('%s=%d' % (k, v) for k, v in tot.items() if v), wall))
    sys.exit(0)

if __name__ == '__main__':
    main()
