#!/usr/bin/env python3
"""Builds the model-checking harness of one property from /repo's working tree, explores it, and reports.

  check.py <id>                    run the check (tier from VERIF_TIER: quick or thorough)
  check.py <id> --replay FILE      rebuild and replay one recorded violation
Exit 0: the property held on everything explored; exit 1: VIOLATION line printed.
"""
import json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'bin'))
from checks import CHECKS, MODES  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
MC = os.path.join(VERIF, 'mc')
TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 4
HANG_S = 90
ASAN = ('detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=6000:hard_rss_limit_mb=8000:'
        'abort_on_error=0:exitcode=99:handle_abort=1:max_malloc_fill_size=65536:malloc_fill_byte=190:'
        'detect_stack_use_after_return=1:alloc_dealloc_mismatch=1:print_summary=1:symbolize=0:quarantine_size_mb=32')


def log(*a):
    print(*a, flush=True)


# ---- build ----------------------------------------------------------------------------------------------------
def gen_config(dst, undef=()):
    """cmake_config.h as this platform's configure step writes it, or with some features turned off."""
    have = {'checkpoint_has_fallocate', 'checkpoint_has_mmap64'} - set(undef)
    out = []
    for line in open(os.path.join(REPO, 'src/checkpoint/cmake_config.h.in')):
        m = re.match(r'\s*#\s*cmakedefine\s+(\w+)', line)
        out.append(('#define %s\n' % m.group(1) if m.group(1) in have else '/* #undef %s */\n' % m.group(1)) if m else line)
    os.makedirs(os.path.join(dst, 'checkpoint'), exist_ok=True)
    open(os.path.join(dst, 'checkpoint/cmake_config.h'), 'w').write(''.join(out))


def lib_sources():
    res = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        res += [os.path.join(d, f) for f in fs if f.endswith(('.cc', '.cpp'))]
    return sorted(res)


def run_cc(job):
    obj, cmd = job
    p = subprocess.run(cmd, capture_output=True, text=True)
    return obj, cmd, p.returncode, p.stderr


def build(check, work):
    """Returns [(binary, mode name)] and the list of compile failures [(unit, stderr)]."""
    jobs, bins = [], []
    for mode in check['modes']:
        m = dict(MODES['plain']); m.update(MODES[mode])
        inc = os.path.join(work, 'inc-' + mode)
        gen_config(inc, m.get('undef', ()))
        flags = ['-std=c++17', '-g1', '-w'] + m['flags'] + check.get('flags', []) + (['-DTHOROUGH=1'] if TIER == 'thorough' else ['-DTHOROUGH=0']) + ['-I' + inc, '-I' + REPO + '/src', '-I' + MC]
        objs = []

        def add(src, name, extra=()):
            obj = os.path.join(work, '%s-%s.o' % (mode, name))
            objs.append(obj)
            jobs.append((obj, ['g++'] + flags + list(extra) + ['-c', src, '-o', obj]))
        # compile the harness's big units first: they take longest
        for unit in check['units']:
            if unit == 'universe':
                if mode.startswith('native'):
                    continue
                groups = range(12)
                if mode != check['modes'][0] and TIER == 'quick':
                    groups = check.get('other_groups', (2, 5, 9, 10))   # the other build modes see some groups (thorough: all)
                for g in groups:
                    add(os.path.join(MC, 'universe.cc'), 'u%d' % g,
                        ['-DGROUP=%d' % g, '-DCHECK_HEADER="%s"' % check['header']] + m.get('unit_flags', []))
            else:
                u = unit if isinstance(unit, dict) else {'src': unit}
                if mode not in u.get('modes', [n for n in check['modes'] if not n.startswith('native')] or check['modes']):
                    continue
                if TIER == 'quick' and mode not in u.get('quick_modes', [mode]):
                    continue
                add(os.path.join(MC, u['src']), u.get('name', u['src'].replace('/', '_')), u.get('flags', []) + m.get('unit_flags', []))
        for s in lib_sources():
            add(s, 'lib_' + re.sub(r'\W', '_', os.path.relpath(s, REPO)), m.get('lib_flags', []))
        for s in ['explore.cc'] + ([] if check.get('no_alloc') else ['alloc.cc']):
            add(os.path.join(MC, s), s[:-3], ['-O1'] + m.get('own_flags', []))
        link = ['g++'] + m.get('link_flags', [f for f in m['flags'] if f.startswith('-f')]) + objs + m.get('link', []) + check.get('link', []) + ['-lpthread', '-o', os.path.join(work, 'bin-' + mode)]
        bins.append((os.path.join(work, 'bin-' + mode), mode, link))
    failures = []
    jobs.sort(key=lambda j: 'wide' not in os.path.basename(j[0]))   # the slowest ones first
    with ThreadPoolExecutor(JOBS) as ex:
        for obj, cmd, rc, err in ex.map(run_cc, jobs):
            if rc != 0:
                failures.append((os.path.basename(obj), err[-3000:]))
    if not failures:
        with ThreadPoolExecutor(JOBS) as ex:
            for obj, cmd, rc, err in ex.map(run_cc, [(b, l) for b, _, l in bins]):
                if rc != 0:
                    failures.append((os.path.basename(obj), err[-3000:]))
    return [(b, m) for b, m, _ in bins], failures


# ---- run ------------------------------------------------------------------------------------------------------
def read_trace(path):
    try:
        with open(path, 'rb') as f:
            d = f.read()
        hb, n, active = struct.unpack_from('<QII', d)
        sc = d[16:256].split(b'\0')[0].decode()
        ch = struct.unpack_from('<%di' % min(n, 1 << 14), d, 256)
        return hb, active, sc, list(ch)
    except Exception:
        return 0, 0, '', []


def shm(work):
    """A memory-backed scratch directory of this run (files are synchronised a lot), or the work directory."""
    d = os.path.join('/dev/shm', 'mc-' + os.path.basename(work))
    try:
        os.makedirs(d, exist_ok=True)
        return d
    except OSError:
        return work


class Worker:
    def __init__(self, binary, mode, args, work, tag):
        self.binary, self.mode, self.args, self.tag = binary, mode, args, tag
        self.out = os.path.join(work, tag + '.out')
        self.trace = os.path.join(work, tag + '.trace')
        self.err = os.path.join(work, tag + '.err')
        self.scratch = os.path.join(shm(work), tag + '.d')

    def run(self, limit=None, hang=HANG_S):
        for p in (self.out, self.trace):
            if os.path.exists(p):
                os.unlink(p)
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        env = dict(os.environ, ASAN_OPTIONS=ASAN, VERIF_SCRATCH=self.scratch)
        cmd = [self.binary] + self.args + ['--out', self.out, '--trace', self.trace, '--scratch', self.scratch]
        if TIER == 'thorough':
            cmd.append('--thorough')
        start = time.time()
        with open(self.err, 'wb') as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, start_new_session=True,
                                 preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (0, 0)))
            last, last_t, self.hung = None, time.time(), False
            delay = 0.01
            while True:
                try:
                    p.wait(delay)
                    break
                except subprocess.TimeoutExpired:
                    pass
                delay = min(0.25, delay * 1.5)
                if os.path.getsize(self.err) > 50_000_000:
                    os.truncate(self.err, 0)
                hb = read_trace(self.trace)[0] if time.time() - last_t > 2 else last
                if hb != last:
                    last, last_t = hb, time.time()
                if time.time() - last_t > hang or (limit and time.time() - start > limit):
                    self.hung = True
                    break
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
        self.rc = p.returncode
        self.wall = time.time() - start
        self.records = []
        if os.path.exists(self.out):
            for line in open(self.out, errors='replace'):
                try:
                    self.records.append(json.loads(line))
                except ValueError:
                    pass
        self.done = any(r.get('done') for r in self.records) or any('replay' in r for r in self.records)
        shutil.rmtree(self.scratch, ignore_errors=True)
        return self

    def stderr_tail(self):
        try:
            with open(self.err, errors='replace') as f:
                t = f.read()
        except OSError:
            return ''
        m = re.search(r'(==\d+==ERROR.*?\n(?:.*\n){0,12})', t)
        return (m.group(1) if m else t[-800:]).strip()


def explore(binary, mode, work, shards, only=None):
    """Runs every shard; returns (stats records, violations)."""
    stats, viols = [], []

    def one(k):
        st, vi, skip = [], [], []
        for attempt in range(6):
            args = ['--run', '--shard', '%d/%d' % (k, shards)] + [x for s in skip for x in ('--skip', s)]
            if only:
                args += ['--match', only]
            w = Worker(binary, mode, args, work, '%s-%d' % (mode, k)).run()
            vi += [dict(kind='check', mode=mode, scenario=r['violation'], choices=r['choices'], error=r['error'], diverged=r['diverged'])
                   for r in w.records if 'violation' in r and r['violation'] not in skip]
            if w.done:
                st += [r for r in w.records if 'scenario' in r]
                return st, vi
            st += [r for r in w.records if 'scenario' in r]
            hb, active, sc, ch = read_trace(w.trace)
            what = 'no progress for %d s' % HANG_S if w.hung else 'process ended with status %s' % w.rc
            vi.append(dict(kind='hang' if w.hung else 'crash', mode=mode, scenario=sc, choices=','.join(map(str, ch)),
                           error=what + ': ' + w.stderr_tail(), diverged=False))
            if not sc:
                break
            # carry on with the scenarios after the one that stopped the process
            skip = list(dict.fromkeys(skip + [r['scenario'] for r in w.records if 'scenario' in r] + [sc]))
        return st, vi
    with ThreadPoolExecutor(JOBS) as ex:
        for st, vi in ex.map(one, range(shards)):
            stats += st
            viols += vi
    return stats, viols


def confirm(v, bins, work):
    """Replays a violation in a process of its own. Returns the replay description, or None."""
    binary = dict((m, b) for b, m in bins)[v['mode']]
    for args, how in ((['--replay', v['scenario'], v['choices']], 'choices'), (['--run', '--only', v['scenario']], 'scenario')):
        if v['kind'] == 'hang' and how == 'scenario':
            continue
        hits, seen = 0, None
        for i in range(2):
            w = Worker(binary, v['mode'], args, work, 'confirm').run(limit=240 if how == 'choices' else 600, hang=240)
            err = None
            if not w.done:
                err = ('hang' if w.hung else 'crash status %s' % w.rc) + ': ' + w.stderr_tail()
            else:
                for r in w.records:
                    if r.get('error') and (not r['error'].startswith('INTERNAL') or v['error'].startswith('INTERNAL')):
                        err = r['error']
                        seen = r
                        break
            if err:
                hits += 1
                last = err
        if hits == 2:
            return dict(how=how, args=args, error=last, trace=(seen or {}).get('trace', ''))
        if hits == 1:
            return dict(how=how + ' (one of two runs: depends on addresses or uninitialised memory)', args=args, error=last, trace=(seen or {}).get('trace', ''))
    return None


def load_known():
    path = os.path.join(VERIF, 'known-findings.txt')
    return [json.loads(l) for l in open(path) if l.startswith('{')] if os.path.exists(path) else []


def main():
    pid = sys.argv[1]
    check = CHECKS[pid]
    t0 = time.time()
    base = os.path.join(VERIF, 'work')
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + '-', dir=base)
    try:
        return check_main(pid, check, work, t0)
    finally:
        shutil.rmtree(os.path.join('/dev/shm', 'mc-' + os.path.basename(work)), ignore_errors=True)
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)


def save_replay(pid, n, data):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (pid, n))
    json.dump(data, open(path, 'w'), indent=1)
    return path


def check_main(pid, check, work, t0):
    replaying = None
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        replaying = json.load(open(sys.argv[3]))
    if TIER == 'thorough' and 'thorough' in check:
        check = dict(check, **check['thorough'])
    bins, failures = build(check, work)
    build_s = time.time() - t0
    if failures:
        if check.get('public_api_only'):
            # The harness uses only the documented interface: code that it accepts on one tree must stay accepted.
            p = save_replay(pid, 0, dict(property=pid, kind='compile', failures=failures))
            for n, e in failures[:3]:
                log('does not compile:', n, '\n', '\n'.join([l for l in e.splitlines() if 'error' in l][:6]))
            write_evidence(pid, check, [], 1, t0, build_s, [])
            log('VIOLATION property=%s replay=%s' % (pid, p))
            return 1
        for n, e in failures[:3]:
            log('BUILD ERROR', n, e)
        return 3
    if replaying:
        v = replaying
        r = confirm(v, bins, work)
        log(json.dumps(r, indent=1))
        if r:
            log('VIOLATION property=%s replay=%s' % (pid, sys.argv[3]))
        return 1 if r else 0

    stats, viols = [], []
    only = os.environ.get('VERIF_ONLY')
    for b, m in bins:
        s, v = explore(b, m, work, check.get('shards', JOBS * 4), only)
        for r in s:
            r['mode'] = m
        stats += s
        viols += v
        if v:
            break
    post = check.get('post')
    if post and not viols:
        viols += post(dict(bins=dict((m, b) for b, m in bins), work=work, stats=stats, Worker=Worker, tier=TIER, repo=REPO, jobs=JOBS))

    known = [k for k in load_known() if k.get('property') == pid]
    reported, printed = 0, set()
    unconfirmed = 0
    for v in viols:
        k = next((k for k in known if re.fullmatch(k['scenario'], v['scenario']) and re.search(k['error'], v['error'])), None)
        if k:
            if k['what'] not in printed:
                printed.add(k['what'])
                log('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
            continue
        if reported >= 3:
            continue
        r = None if v.get('confirmed') else confirm(v, bins, work)
        if r is None and not v.get('confirmed'):
            unconfirmed += 1
            log('not reproduced, ignored: %s [%s] %s: %s' % (v['mode'], v['scenario'], v['choices'], v['error'][:300]))
            continue
        path = save_replay(pid, reported, dict(v, property=pid, tier=TIER, replay=r))
        log('[%s] %s (choices %s): %s' % (v['mode'], v['scenario'], v['choices'][:200], ((r or {}).get('error') or v['error'])[:600]))
        if r and r.get('trace'):
            log('  trace:', r['trace'][:800])
        log('VIOLATION property=%s replay=%s' % (pid, path))
        reported += 1
    write_evidence(pid, check, stats, reported, t0, build_s, sorted(printed))
    ex = sum(r['executions'] for r in stats)
    log('%s %s: %d scenarios, %d executions, %d operations, %d distinct states, build %.0f s, total %.0f s' % (
        pid, TIER, len(stats), ex, sum(r['transitions'] for r in stats), sum(r['states'] for r in stats), build_s, time.time() - t0))
    if os.environ.get('VERIF_TIMES'):
        for r in sorted(stats, key=lambda r: -r['ms'])[:15]:
            log('  %6d ms %s/%s (%d executions)' % (r['ms'], r['mode'], r['scenario'], r['executions']))
    if not reported and not stats:
        log('nothing was explored')
        return 3
    return 1 if reported else 0


def write_evidence(pid, check, stats, violations, t0, build_s, known):
    ex = sum(r['executions'] for r in stats)
    nt = sum(r['nontrivial'] for r in stats)
    samples = []
    for r in stats:
        for s in r['samples'][1:2] or r['samples'][:1]:
            if len(s) > 4:
                samples.append('%s/%s: %s' % (r.get('mode', ''), r['scenario'], s))
    step = max(1, len(samples) // 12)
    samples = samples[::step][:12]
    extra = {}
    for r in stats:
        for k, v in r['extra'].items():
            extra[k] = extra.get(k, 0) + v
    capped = [r['scenario'] for r in stats if r['capped']]
    cov = {'samples': samples, 'scenarios': len(stats), 'choice_points': sum(r['choices'] for r in stats),
           'build_modes': sorted({r['mode'] for r in stats}), 'exhaustive': not capped, 'build_s': round(build_s, 1),
           'rule': check['rule'], 'bounds': check.get('bounds', '')}
    if capped:
        cov['capped_scenarios'] = capped
    cov.update(extra)
    if check['level'] == 'model_checking':
        cov.update(states=sum(r['states'] for r in stats), transitions=sum(r['transitions'] for r in stats),
                   traces_validated_against_impl=ex, nontrivial_executions=nt)
    else:
        cov.update(evaluations=ex, distinct_nontrivial=nt, operations=sum(r['transitions'] for r in stats),
                   distinct_outcomes=sum(r['states'] for r in stats))
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': check['level'], 'coverage': cov,
          'assumptions': check.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': violations}
    if known:
        ev['coverage']['known_findings'] = known
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
