#!/usr/bin/env python3
"""run.py PROP: build the monitored programs from /repo, run the workloads, judge what the monitors saw.

exit 0: held on everything explored (known findings are printed); exit 1 + VIOLATION line: broken;
anything else: the check itself could not give an answer."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
import concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import plan as P

VERIF = B.VERIF
ENV = {
    'OMPI_ALLOW_RUN_AS_ROOT': '1', 'OMPI_ALLOW_RUN_AS_ROOT_CONFIRM': '1', 'OMPI_MCA_btl': 'self,vader',
    'OMPI_MCA_btl_vader_single_copy_mechanism': 'none', 'OMPI_MCA_mpi_yield_when_idle': '1',
    'OMPI_MCA_btl_base_warn_component_unused': '0', 'OMPI_MCA_mpi_warn_on_fork': '0',
    'OMPI_MCA_rmaps_base_oversubscribe': '1', 'OMPI_MCA_hwloc_base_binding_policy': 'none',
    # the default io component corrupts collective writes with a displaced view on Cartesian
    # communicators (reproduced without DisCoTec, see DESIGN.md), ROMIO does not
    'OMPI_MCA_io': 'romio321',
    'OMPI_MCA_plm_rsh_agent': '/bin/false',
    'OMP_WAIT_POLICY': 'passive', 'HOME': os.environ.get('HOME', '/root'),
}
LOCK = threading.Lock()


class CheckError(Exception):
    pass


def say(*a):
    with LOCK:
        print(*a, flush=True)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix='vp-' + prop + '-', dir=os.environ.get('VP_SCRATCH', '/tmp'))
        self.violations = []      # dict(key, desc, msg, replay)
        self.counters, self.distinct, self.samples = {}, set(), []
        self.evals = 0
        self.notes = []
        self.bins = {}
        self.runs = 0
        self.stop = False
        self.t0 = time.time()
        self.known = load_known()

    def count(self, k, n=1):
        with LOCK:
            self.counters[k] = self.counters.get(k, 0) + n

    def violate(self, key, desc, msg, replay):
        with LOCK:
            self.violations.append(dict(key=key, desc=desc, msg=msg, replay=replay))


def kill_tree(p):
    try:
        os.killpg(p.pid, signal.SIGTERM)
    except OSError:
        pass
    t = time.time()
    while p.poll() is None and time.time() - t < 5:
        time.sleep(0.05)
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def read_logs(out, n):
    ranks = []
    for r in range(n):
        L = []
        f = os.path.join(out, 'rank%d.jsonl' % r)
        if os.path.exists(f):
            for line in open(f, errors='replace'):
                try:
                    L.append(json.loads(line))
                except ValueError:
                    pass
        ranks.append(L)
    return ranks


SAN_RE = re.compile(r'(ERROR: AddressSanitizer: ([\w-]+)|runtime error: (.*)|WARNING: ThreadSanitizer: ([\w ()-]+)|ERROR: ThreadSanitizer: ([\w-]+))')


def san_reports(out, text=''):
    """one entry per report: (kind, location key, text); UBSan of gcc writes to stderr whatever log_path says"""
    res = []
    txts = [open(os.path.join(out, f), errors='replace').read() for f in sorted(os.listdir(out)) if f.startswith('san.')]
    if 'runtime error:' in text:
        txts.append(text)
    for txt in txts:
        for p in re.split(r'(?=WARNING: ThreadSanitizer)|(?=ERROR: AddressSanitizer)|(?m:^)(?=[^\n]*runtime error:)', txt):
            m = SAN_RE.search(p)
            if not m:
                continue
            kind = next(g for g in m.groups()[1:] if g)
            if m.group(3):
                kind = 'ub:' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(3))[:80]
                p = '\n'.join(p.split('\n')[:14])
            if 'ThreadSanitizer' in p[:60]:
                # the two accesses have to be in code built here: what libraries do inside is invisible to the sanitizer
                stacks = [x for x in re.split(r'\n\s*\n', p) if '#0' in x][:2]
                tops = []
                for st in stacks:
                    for fr in re.findall(r'#\d+ (.*)', st):
                        if re.search(r'libsanitizer|libtsan|/usr/include|/usr/lib/gcc', fr):
                            continue
                        mm = re.search(r'^(.*?) (?:%s)/((?:src|third_level_manager)/[\w/]+\.[chp]+):(\d+)' % re.escape(B.REPO), fr)
                        tops.append((mm.group(2), re.sub(r'<.*| \[clone.*', '', mm.group(1)).split('(')[0][-60:]) if mm else None)
                        break
                kind = kind.split(' (')[0]
                ok = len(tops) == 2 and all(tops) and re.match('data race|heap-use-after-free', kind)
                res.append((kind, ':'.join(tops[0]) + ' ' + tops[1][1] if ok else '?', p[:6000]))
                continue
            locs = re.findall(r'(?:%s/)?((?:src|third_level_manager)/[\w/]+\.[chp]+):(\d+)' % re.escape(B.REPO), p)
            loc = locs[0][0] if locs else '?'
            fn = re.search(r'#\d+ (?:0x[0-9a-f]+ in )?(.*?) (?:%s)/(?:src|third_level_manager)' % re.escape(B.REPO), p)
            func = re.sub(r'<.*', '', fn.group(1)).split('(')[0][-80:] if fn and not m.group(3) else ''
            res.append((kind, loc + ':' + func, p[:6000]))
    return res


def launch(ctx, run, first, cases, only=None, timeout=None, seed=None):
    """one mpiexec; returns dict(status, ranks, out, text)"""
    ctx.runs += 1
    out = tempfile.mkdtemp(prefix='run-', dir=ctx.scratch)
    n = run['n']
    env = dict(os.environ)
    env.update(ENV)
    env['TMPDIR'] = ctx.scratch
    env['OMP_NUM_THREADS'] = str(run.get('threads', 2))
    san = os.path.join(out, 'san')
    env['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=86:halt_on_error=1:log_path=%s:malloc_context_size=12:allocator_may_return_null=1:detect_stack_use_after_return=0' % san
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=0:log_path=%s' % san
    env['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=0:log_path=%s:history_size=4:detect_deadlocks=0:report_signal_unsafe=0' % san
    if run['prog'].startswith('t_'):
        env['PMIX_MCA_gds'] = 'hash'  # the shared memory of PMIx wants an address the sanitizer uses
    env.update({k: str(v).replace('@OUT@', out) for k, v in run.get('env', {}).items()})
    cmd = ['mpiexec', '--oversubscribe', '--bind-to', 'none', '-n', str(n)]
    if run.get('nompi'):
        cmd = []
    cmd += [ctx.bins[run['prog']], '--suite', run['suite'], '--seed', str(seed if seed is not None else ctx.seed),
           '--cases', str(cases), '--first', str(first), '--out', out]
    if only is not None:
        cmd += ['--only', str(only)]
    for k, v in run.get('args', {}).items():
        cmd += ['--' + k, re.sub(r'@BIN:(\w+)@', lambda m: ctx.bins[m.group(1)], str(v))]
    so = open(os.path.join(out, 'stdout'), 'wb')
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=out, env=env, stdout=so, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
    hung = False
    # no verdict from elapsed time alone: hung means that no rank has logged anything for a long time
    quiet = run.get('hang_timeout', 60) * (2.5 if only is not None else 1)
    hard = timeout or run.get('timeout', 600)
    last, size = t0, -1
    while True:
        try:
            rc = p.wait(timeout=0.05 if time.time() - t0 < 2 else 0.3)
            break
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        sz = sum(os.path.getsize(os.path.join(out, f)) for f in os.listdir(out) if f.endswith('.jsonl') or f.startswith('san'))
        if sz != size:
            last, size = now, sz
        if now - last > quiet or now - t0 > hard:
            hung = True
            kill_tree(p)
            rc = -999
            break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    so.close()
    txt = open(os.path.join(out, 'stdout'), errors='replace').read()
    ranks = read_logs(out, n)
    return dict(rc=rc, hung=hung, ranks=ranks, out=out, text=txt, cmd=cmd, wall=time.time() - t0)


def open_case(r):
    """(index, desc) of the lowest case some rank had begun but not ended"""
    best = None
    for L in r['ranks']:
        cur = None
        for e in L:
            if e['t'] == 'case':
                cur = (e['i'], e['desc'])
            elif e['t'] == 'end':
                cur = None
        if cur and (best is None or cur[0] < best[0]):
            best = cur
    if best is None:
        last = [e for L in r['ranks'] for e in L if e['t'] == 'case']
        if last:
            return (max(e['i'] for e in last), 'after last case: ' + last[-1]['desc'])
    return best


def replay_of(ctx, run, i):
    d = os.path.join(VERIF, 'replay')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, '%s-%s-%s-s%d-c%s.json' % (ctx.prop, run['prog'], run['suite'], ctx.seed, i))
    json.dump(dict(property=ctx.prop, run=run, seed=ctx.seed, case=i,
                   how='python3 vp/run.py --replay ' + f), open(f, 'w'), indent=1, default=str)
    return f


def absorb(ctx, run, r, functional):
    for L in r['ranks']:
        for e in L:
            if e['t'] == 'fail' and (functional or run.get('fail_filter') and run['fail_filter'](e)):
                ctx.violate(e['key'], e['desc'], e['msg'], replay_of(ctx, run, e['i']))
            elif e['t'] == 'sample' and len(ctx.samples) < 12:
                ctx.samples.append(e['text'])
            elif e['t'] == 'done':
                with LOCK:
                    for k, v in e['counters'].items():
                        if k != 'cases':
                            kk = run['suite'] + '.' + k
                            ctx.counters[kk] = ctx.counters.get(kk, 0) + v
                    ctx.distinct.update(run['suite'] + x for x in e['distinct'])
    ended = [set(e['i'] for e in L if e['t'] == 'end') for L in r['ranks']]
    with LOCK:
        ctx.evals += len(set.union(*ended)) if ended else 0


def judge_san(ctx, run, r, i):
    reps = san_reports(r['out'], r['text'])
    oc = open_case(r)
    for kind, loc, txt in reps:
        if run.get('san_filter') and not run['san_filter'](kind, loc, txt):
            ctx.count('sanitizer_reports_outside_repo')
            continue
        ctx.violate('san:' + kind + ':' + loc, oc[1] if oc else '', txt, replay_of(ctx, run, oc[0] if oc else i))
    return reps


def thread_diff(ctx, run, r):
    """what fails with several threads and not with one is caused by the threads"""
    bad = {}
    for L in r['ranks']:
        for e in L:
            if e['t'] == 'fail':
                bad.setdefault(e['i'], e)
    for i in sorted(bad)[:3]:
        one = dict(run, threads=1)
        r1 = launch(ctx, one, i, 1, only=i)
        ok = not r1['hung'] and r1['rc'] == 0 and not any(e['t'] == 'fail' for L in r1['ranks'] for e in L)
        shutil.rmtree(r1['out'], ignore_errors=True)
        if ok:
            e = bad[i]
            ctx.violate('threads.' + e['key'], e['desc'], 'with one thread the case is right, with %d threads: %s' % (run['threads'], e['msg']), replay_of(ctx, run, i))
        else:
            ctx.count('failed_cases_not_caused_by_threads')


def do_chunk(ctx, run, first, cases):
    functional = run.get('functional', True)
    tries = 0
    resumed = 0
    pos, end = first, first + cases
    while pos < end:
        if ctx.stop or (ctx.tier == 'quick' and time.time() - ctx.t0 > 600):
            ctx.notes.append('cases %d..%d of %s not run (%s)' % (pos, end - 1, run['suite'], 'stopped' if ctx.stop else 'time'))
            return
        r = launch(ctx, run, pos, end - pos)
        started = any(e['t'] == 'start' for L in r['ranks'] for e in L)
        alldone = all(any(e['t'] == 'done' for e in L) for L in r['ranks'])
        if r['hung'] and started:
            oc = open_case(r)
            absorb(ctx, run, r, functional)
            judge_san(ctx, run, r, pos)
            i = oc[0] if oc else pos
            # a timeout alone is no verdict: run that case by itself again
            r2 = launch(ctx, run, i, 1, only=i)
            tries += 1
            if r2['hung'] or tries > 2:
                if functional or run.get('crash_counts', False):
                    ctx.violate('hang', oc[1] if oc else '', 'no progress for %ds, twice; open case %s' % (run.get('hang_timeout', 60), oc), replay_of(ctx, run, i))
                    if not is_known(ctx.known, ctx.prop, ctx.violations[-1]):
                        ctx.stop = True
                shutil.rmtree(r['out'], ignore_errors=True)
                shutil.rmtree(r2['out'], ignore_errors=True)
                resumed += 1
                pos = i + 1
                if resumed > 2:
                    ctx.notes.append('gave up on remaining cases after repeated hangs')
                    return
                continue
            ctx.notes.append('a timeout did not repeat (case %s): %s' % (i, oc[1] if oc else ''))
            shutil.rmtree(r['out'], ignore_errors=True)
            shutil.rmtree(r2['out'], ignore_errors=True)
            pos = i
            continue
        if not started or (not alldone and (r['rc'] in (137, -9) or 'PMIX' in r['text'] and 'rank' not in r['text'])):
            tries += 1
            if tries > 2:
                raise CheckError('could not run %s: rc=%s\n%s' % (run['prog'], r['rc'], r['text'][-3000:]))
            time.sleep(1)
            shutil.rmtree(r['out'], ignore_errors=True)
            continue
        absorb(ctx, run, r, functional)
        if run.get('thread_diff'):
            thread_diff(ctx, run, r)
        reps = judge_san(ctx, run, r, pos)
        if run.get('post'):
            for key, desc, msg in run['post'](ctx, run, r):
                ctx.violate(key, desc, msg, replay_of(ctx, run, 'post%d' % pos))
        if alldone and r['rc'] in (0, 3):
            shutil.rmtree(r['out'], ignore_errors=True)
            return
        if alldone and not reps and r['rc'] == 1 and 'fails' in json.dumps(r['ranks'][0][-1:]):
            # non-zero end after all ranks reported: finalization problem
            pass
        # died
        oc = open_case(r)
        i = oc[0] if oc else pos
        excs = any(e['t'] == 'fail' and e['key'] == 'exception' for L in r['ranks'] for e in L)
        if not reps and not (excs and functional):
            if functional or run.get('crash_counts', False):
                sig = re.search(r'exited on signal (\d+) \(([^)]*)\)', r['text'])
                m = re.search(r'(terminate called[^\n]*\n?[^\n]*|what\(\):[^\n]*|Assertion[^\n]*|\*\*\* An error occurred in [^\n]*|MPI_ERR\w+[^\n]*|\*\*\* stack smashing[^\n]*|malloc\(\)[^\n]*|free\(\)[^\n]*|munmap_chunk[^\n]*|corrupted[^\n]*)', r['text'])
                key = 'crash:' + (sig.group(2) if sig else 'rc%s' % r['rc'])
                ctx.violate(key, oc[1] if oc else '', (m.group(1) if m else '') + '\n' + r['text'][-1500:], replay_of(ctx, run, i))
        shutil.rmtree(r['out'], ignore_errors=True)
        resumed += 1
        if resumed > 3:
            ctx.notes.append('stopped resuming after repeated crashes')
            return
        pos = i + 1


def load_known():
    res = []
    f = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line:
                res.append(json.loads(line))
    return res


def is_known(known, prop, v):
    for k in known:
        if k.get('status') != 'known' or k['property'] != prop:
            continue
        if re.fullmatch(k['key'], v['key']) and re.search(k.get('desc', ''), v['desc']) and re.search(k.get('msg', ''), v['msg'], re.S):
            return k
    return None


def evidence(ctx, spec, wall, nviol):
    cov = dict(evaluations=ctx.evals, distinct_nontrivial=len(ctx.distinct), rule=spec['rule'],
               samples=ctx.samples[:8] or ['(none)'], program_runs=ctx.runs,
               observed={k: ctx.counters[k] for k in sorted(ctx.counters)})
    if ctx.notes:
        cov['notes'] = ctx.notes[:20]
    d = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=spec.get('level', 'exploration'), coverage=cov,
             wall_s=round(wall, 1), violations=nviol, assumptions=spec.get('assumptions', []))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    f = os.path.join(VERIF, 'evidence', ctx.prop + '.json')
    json.dump(d, open(f + '.tmp', 'w'), indent=1)
    os.replace(f + '.tmp', f)


def chunks(run, tier, scale):
    n = run['cases'][tier] if isinstance(run['cases'], dict) else run['cases']
    n = max(1, int(n * scale))
    step = run.get('chunk', n)
    i = 0
    while i < n:
        yield i, min(step, n - i)
        i += step


def main():
    args = sys.argv[1:]
    if args and args[0] == '--replay':
        rp = json.load(open(args[1]))
        prop, tier, seed = rp['property'], 'quick', rp['seed']
    else:
        rp = None
        prop = args[0]
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1'))
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    scale = float(os.environ.get('VP_SCALE', '1'))
    spec = P.PLAN[prop]
    t0 = time.time()
    ctx = Ctx(prop, tier, seed)
    try:
        runs = [r for r in spec['runs'] if tier in r.get('tiers', ('quick', 'thorough'))]
        if os.environ.get('VP_SUITE'):
            runs = [r for r in runs if r['suite'] in os.environ['VP_SUITE'].split(',')]
        if rp:
            want = rp['run']
            runs = [r for r in runs if r['prog'] == want['prog'] and r['suite'] == want['suite'] and r['n'] == want['n']] or [want]
            runs = runs[:1]
        progs = {r['prog'] for r in runs} | set(spec.get('progs', []))
        ctx.bins = B.build([P.PROGS[p] for p in sorted(progs)])
        tb = time.time() - t0
        say('built %s in %.0fs' % (', '.join(sorted(progs)), tb))
        if rp:
            r = launch(ctx, runs[0], 0, 1, only=None if str(rp['case']).startswith('post') else rp['case']) if not str(rp['case']).startswith('post') else launch(ctx, runs[0], *list(chunks(runs[0], 'quick', 1))[0])
            print(r['text'][-6000:])
            for L in r['ranks']:
                for e in L:
                    if e['t'] in ('fail',):
                        print(json.dumps(e))
            for x in san_reports(r['out']):
                print(x[2])
            return 0
        jobs = []
        for run in runs:
            for f, c in chunks(run, tier, scale):
                jobs.append((run, f, c))
        par = spec.get('par', 2)
        with cf.ThreadPoolExecutor(par) as ex:
            futs = [ex.submit(do_chunk, ctx, *j) for j in jobs]
            for f in futs:
                f.result()
        if spec.get('custom'):
            spec['custom'](ctx)
        known = load_known()
        seen_known, fresh = {}, []
        for v in ctx.violations:
            k = is_known(known, prop, v)
            if k:
                seen_known.setdefault(k['what'], 0)
                seen_known[k['what']] += 1
            else:
                fresh.append(v)
        for k in known:
            if k.get('status') == 'known' and k['property'] == prop:
                say('KNOWN-FINDING: property=%s %s%s' % (prop, k['what'], '' if k['what'] in seen_known else ' (not met in this run)'))
        if seen_known:
            ctx.counters['known_finding_hits'] = sum(seen_known.values())
        evidence(ctx, spec, time.time() - t0, len(fresh))
        if ctx.evals == 0:
            raise CheckError('no case was evaluated')
        say('%s: %d cases, %d distinct, %d runs, %.0fs' % (prop, ctx.evals, len(ctx.distinct), ctx.runs, time.time() - t0))
        if fresh:
            shown = set()
            for v in fresh:
                if v['key'] in shown:
                    continue
                shown.add(v['key'])
                if len(shown) > 8:
                    break
                say('  %s: %s\n    case: %s' % (v['key'], v['msg'][:1500], v['desc'][:600]))
                say('VIOLATION property=%s replay=%s' % (prop, v['replay']))
            return 1
        return 0
    except (CheckError, B.BuildError) as e:
        say('CHECK ERROR: %s' % e)
        return 2
    finally:
        if os.environ.get('VP_KEEP'):
            say('kept ' + ctx.scratch)
        else:
            shutil.rmtree(ctx.scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
