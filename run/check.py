#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] : decide one property.

Rebuilds the symbolic executor and the bitcode of /repo's current tree, runs every job of the
property, replays each counterexample natively and writes evidence/<id>.json.
Exit 0: held on everything explored; 1: VIOLATION; 2: a counterexample did not reproduce, or the
machinery could not be built."""
import argparse, json, os, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, jobs
V = build.V


def known():
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                out.append(json.loads(l[6:]))
    return out


def kmatch(k, prop, job, v):
    return (k['property'] == prop and k['harness'] == job.h and k.get('kind', v['kind']) == v['kind'] and k['label'] in v['label']
            and all(job.p.get(a) == b for a, b in k.get('params', {}).items())
            and all([a, b] in v['choices'] for a, b in k.get('choices', {}).items())
            and all(any(s in f for f in v['stack']) for s in k.get('stack', [])))


# executors at work; what made the check stop before the end
running = set()
stopped = []


def stop():
    stopped.append(True)
    for p in list(running):
        p.kill()


def run_job(sx, bc, job, limit, outdir, n):
    out = os.path.join(outdir, f'{n}.json')
    cmd = [sx, bc, '--harness', job.h, '--time', str(limit), '--steps', str(job.steps), '--mem', str(job.mem), '--viol', str(job.viol), '--out', out]
    for k, v in job.p.items():
        cmd += ['--param', f'{k}={v}']
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    running.add(p)
    if stopped:
        p.kill()
    try:
        _, err = p.communicate(timeout=limit * 1.5 + 60)
        rc, err = p.returncode, err.decode(errors='replace')[-2000:]
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        rc, err = -1, 'killed at the hard limit'
    running.discard(p)
    try:
        d = json.load(open(out))
    except Exception:
        d = None
    return rc, err, d, time.time() - t


def write_replay(path, job, v):
    with open(path, 'w') as f:
        f.write(f'# property harness {job.h} profile {job.profile}\n# {v["kind"]}: {v["label"]}\n')
        for s in v['stack']:
            f.write(f'#   {s}\n')
        f.write(f'h {job.h}\n')
        for k, x in job.p.items():
            f.write(f'p {k} {x}\n')
        for k, x in v['inputs']:
            f.write(f'i {k.replace(" ", "_")} {" ".join(map(str, x))}\n')
        for k, x in v['choices']:
            f.write(f'c {k.replace(" ", "_")} {x}\n')
        for x in v['faults']:
            f.write(f'f {x}\n')
        for x in v['fs']:
            f.write(f'# fs {x}\n')


def native_replay(exe, job, replay, shim=None):
    """-> (reproduced, what happened)"""
    last = ''
    for attempt in range(job.retries):
        d = tempfile.mkdtemp(prefix='jbkrep')
        try:
            e = dict(os.environ, VSYM_HARNESS=job.h, VSYM_REPLAY=replay, VSYM_ATTEMPT=str(attempt), TMPDIR=d, RUST_BACKTRACE='0')
            cpus = sorted(os.sched_getaffinity(0))[:job.p.get('ncpu', 99)]
            if shim:
                e['LD_PRELOAD'] = shim
            phase, r = 0, None
            while True:
                e['VSYM_PHASE'] = str(phase)
                try:
                    r = subprocess.run([exe], cwd=d, env=e, preexec_fn=lambda: os.sched_setaffinity(0, cpus), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=job.native_timeout)
                except subprocess.TimeoutExpired:
                    return True, f'no termination within {job.native_timeout} s'
                err = r.stderr.decode(errors='replace')
                if r.returncode == 42 and phase < 3:
                    phase += 1
                    continue
                break
            last = f'exit {r.returncode}: ' + ' | '.join(err.strip().splitlines()[-4:])
            if r.returncode == 10 and 'ASSERT-FAILED' in err:
                return True, last
            if r.returncode == 101 or r.returncode < 0 or 'panicked at' in err:
                return True, last
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return False, last


def engine_replay(sx, bc, job, replay):
    """the same path again in the executor, every input and choice fixed by the file"""
    out = replay + '.json'
    cmd = [sx, bc, '--harness', job.h, '--time', '300', '--steps', str(job.steps), '--mem', str(2 * job.mem), '--out', out, '--replay', replay]
    for k, v in job.p.items():
        cmd += ['--param', f'{k}={v}']
    try:
        subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
        d = json.load(open(out))
        os.remove(out)
        return [v['kind'] + ': ' + v['label'] for v in d['violations']]
    except Exception as e:
        return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--all', action='store_true', help='go on after a confirmed violation')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop = jobs.PROPS[a.prop]
    todo = [j for j in prop.jobs(a.tier) if not a.only or j.h.startswith(a.only)]
    profiles = sorted({j.profile for j in todo})
    try:
        with cf.ThreadPoolExecutor() as ex:
            fe = ex.submit(build.engine)
            fb = {p: ex.submit(build.bitcode, p) for p in profiles}
            sx = fe.result()
            bc = {p: f.result() for p, f in fb.items()}
    except build.BuildError as e:
        print(e)
        return 2
    tb = time.time() - t0
    budget = jobs.BUDGET[a.tier]
    outdir = tempfile.mkdtemp(prefix='jbkchk')
    results = []
    deadline = time.time() + budget
    repdir = os.path.join(build.B, 'replay')
    os.makedirs(repdir, exist_ok=True)
    kf = known()
    viol, unconf, findings, incomplete = [], [], {}, []
    nat = {}
    counts = {'replayed': 0, 'n': 0}

    def judge(j, rc, err, d):
        """what one job found: known findings, violations (replayed first), or why it gives no answer"""
        if d is None:
            if not stopped:
                incomplete.append(f'{j.name()}: {err or rc}')
            return
        for k, c in d['incomplete'].items():
            incomplete.append(f'{j.name()}: {k} x{c}')
        if d['complete'] and not d['violations']:
            for c in j.covers:
                if c not in d['covers']:
                    incomplete.append(f'{j.name()}: cover point "{c}" not reached')
        for v in d['violations']:
            k = [x for x in kf if kmatch(x, a.prop, j, v)]
            if k:
                findings.setdefault(k[0]['what'], 0)
                findings[k[0]['what']] += v['count']
                continue
            if len(viol) >= 3 or viol and stopped:
                continue
            counts['n'] += 1
            rp = os.path.join(repdir, f'{a.prop}-{counts["n"]}.replay')
            write_replay(rp, j, v)
            if j.native and v['kind'] not in j.engine_only:
                try:
                    if j.profile not in nat:
                        nat[j.profile] = build.native(j.profile)
                    shim = None
                    if j.shim:
                        import shim as sh
                        shim = sh.build_so()
                    okk, what = native_replay(nat[j.profile], j, rp, shim)
                except build.BuildError as e:
                    okk, what = False, str(e)
                counts['replayed'] += 1
                with open(rp, 'a') as f:
                    f.write(f'# native replay: {"reproduced" if okk else "NOT reproduced"}: {what}\n')
                if not okk and j.sched:
                    # the schedule cannot be imposed on the native build
                    again = engine_replay(sx, bc[j.profile], j, rp)
                    okk = bool(again)
                    with open(rp, 'a') as f:
                        f.write(f'# engine replay of the same inputs and schedule: {again}\n')
                if not okk:
                    unconf.append((j, v, rp, what))
                    continue
            else:
                with open(rp, 'a') as f:
                    f.write('# replayed by the symbolic executor on the same bitcode (the trigger is a schedule or a model decision)\n')
            viol.append((j, v, rp))

    try:
        with cf.ThreadPoolExecutor(int(os.environ.get('JBK_JOBS', '8'))) as ex:
            # long jobs first
            order = sorted(range(len(todo)), key=lambda i: -todo[i].cost)

            def go(i):
                j = todo[i]
                left = deadline - time.time()
                if stopped or left < 2:
                    return i, (-2, 'not started: out of time', None, 0)
                return i, run_job(sx, bc[j.profile], j, min(j.time, left), outdir, i)
            for f in cf.as_completed([ex.submit(go, i) for i in order]):
                i, r = f.result()
                results.append((todo[i], r))
                judge(todo[i], *r[:3])
                # a confirmed violation answers the question: what has not been explored by then is left
                if viol and not stopped and not a.all:
                    stop()
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    for w, c in findings.items():
        print(f'KNOWN-FINDING: property={a.prop} {w}')
    for j, v, rp in viol:
        print(f'VIOLATION property={a.prop} replay={rp}')
        print(f'  {j.name()}: {v["kind"]}: {v["label"]} ({v["count"]} paths)')
        for s in v['stack'][:6]:
            print('     ', s)
    for j, v, rp, what in unconf:
        print(f'UNCONFIRMED {j.name()}: {v["kind"]}: {v["label"]}: the native replay gave: {what} ({rp})')
    # ------------------------------------------------------------------ evidence
    tot = {}
    sol = {}
    lines, fns, samples, bounds, covers = {}, set(), [], [], {}
    for j, (rc, err, d, secs) in results:
        if d is None:
            continue
        for k, v in d['counters'].items():
            tot[k] = max(tot.get(k, 0), v) if k.startswith('max') else tot.get(k, 0) + v
        for k, v in d['solver'].items():
            sol[k] = max(sol.get(k, 0), v) if k.startswith('max') else round(sol.get(k, 0) + v, 3)
        for f, l in d['lines'].items():
            lines.setdefault(f, set()).update(l)
        fns.update(d['functions'])
        if d['samples']:
            samples.append(f'{j.name()}: {d["samples"][-1][:300]}')
        for k, v in d['covers'].items():
            covers[k] = covers.get(k, 0) + v
        bounds.append({'job': j.name(), 'profile': j.profile, 'complete': d['complete'], 'paths': d['counters']['paths'], 'asserts': d['counters']['asserts'],
                       'solver_queries': d['solver']['queries'], 'secs': d['secs']})
    ev = {
        'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': 'Symbolic execution of the LLVM bitcode of the real code (jubako + std + dependencies, rebuilt from /repo by this run); every path within the bounds below was explored and every assertion on it decided for all values of its symbolic inputs by term rewriting and the SMT solver (z3).',
            'what': prop.what, 'bounds': prop.bounds, 'outside': prop.outside,
            'evaluations': tot.get('paths', 0), 'distinct_nontrivial': tot.get('paths', 0) - tot.get('pruned', 0),
            'rule': 'an evaluation is one symbolic path (a distinct sequence of solver-feasible branch, schedule and fault decisions); it covers every input value satisfying its path condition',
            'jobs_run': len([1 for _, r in results if r[2]]), 'jobs_planned': len(todo),
            'exhaustive': not incomplete,
            'assertions_checked': tot.get('asserts', 0), 'assertions_sent_to_solver': tot.get('asserts_solver', 0),
            'solver': sol, 'counters': tot, 'cover_points': covers,
            'functions_encoded': len(fns), 'functions': sorted(x for x in fns)[:400],
            'repo_lines_executed': {f: len(l) for f, l in sorted(lines.items())},
            'jobs': bounds, 'samples': samples[:12] or ['none'], 'incomplete': incomplete[:40], 'counterexamples_replayed': counts['replayed'], 'stopped_at_first_violation': bool(stopped),
            'known_findings_seen': findings,
        },
        'assumptions': jobs.ASSUME + prop.assume,
        'wall_s': round(time.time() - t0, 2), 'violations': len(viol),
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', a.prop + '.json'), 'w'), indent=1)
    print(f'{a.prop} {a.tier}: {len(results)} jobs, {tot.get("paths", 0)} paths, {tot.get("asserts", 0)} assertions, {sol.get("queries", 0)} queries, '
          f'{sol.get("secs", 0)} s solving, build {tb:.1f} s, total {time.time() - t0:.1f} s; incomplete {len(incomplete)}; violations {len(viol)}')
    if incomplete:
        for x in incomplete[:8]:
            print('  incomplete:', x)
    if a.v:
        for b in sorted(bounds, key=lambda b: -b['secs']):
            print('  ', b)
    if viol:
        return 1
    return 2 if unconf else 0


if __name__ == '__main__':
    sys.exit(main())
