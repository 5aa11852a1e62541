"""
python mc/run.py C03 [--tier quick|thorough] [--jobs N] [--replay FILE]

Decides one property by exhaustive exploration; see core.py.
"""
import argparse
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


def environment(scratch):
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    # never read or write bytecode next to the sources: stale bytecode must not stand in for them
    sys.pycache_prefix = scratch
    os.environ['PYTHONPYCACHEPREFIX'] = scratch
    os.environ['JAX_PLATFORMS'] = 'cpu'
    os.environ['MPLBACKEND'] = 'Agg'
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ[v] = '1'
    os.environ['XLA_FLAGS'] = '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
    os.environ.setdefault('PYTHONHASHSEED', '0')


def known_findings():
    """Lines 'finding: property=<id> trace=<text> :: <what fails>'."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property='):
                head, _, what = line.partition(' :: ')
                pid, _, match = head[len('finding: property='):].partition(' match=')
                out.append((pid.strip(), match.strip(), what.strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VSM_JOBS', 0)) or min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--verbose', action='store_true')
    args = ap.parse_args()
    pid = args.pid.upper()
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    scratch = tempfile.mkdtemp(prefix='vsm_mc_')
    try:
        environment(scratch)
        return replay(pid, args.replay) if args.replay else decide(pid, tier, seed, args.jobs, args.verbose)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(pid, path):
    from mc import core
    core.prepare()
    mod = core.load(pid)
    if hasattr(mod, 'setup'):
        mod.setup()
    rec = json.load(open(path))
    if rec.get('choices') is None:
        r = core.search(mod, rec['config'], 0)
        for v in r.violations:
            print(v[2])
        return 1 if r.violations else 0
    run, err = core.execute(mod, rec['config'], rec['choices'])
    for line in run.log:
        print('  ', line)
    print(err or 'held')
    return 1 if err else 0


def decide(pid, tier, seed, jobs, verbose):
    from mc import core
    t0 = time.time()
    mod = core.load(pid)
    cfgs = mod.configs(tier)
    limit = float(os.environ.get('VSM_LIMIT_S', 3000 if tier == 'thorough' else 700))
    deadline = t0 + limit
    ctx = mp.get_context('fork')
    task_q, out_q = ctx.Queue(), ctx.Queue()
    for i, c in enumerate(cfgs):
        task_q.put((i, c))
    jobs = max(1, min(jobs, len(cfgs)))
    for _ in range(jobs):
        task_q.put(None)
    procs = [ctx.Process(target=core.worker, args=(pid, task_q, out_q, deadline), daemon=True) for _ in range(jobs)]
    for p in procs:
        p.start()
    total = core.Result()
    done, skipped, fatal, slow = 0, 0, None, []
    finished = 0
    import queue as Q
    while done + skipped < len(cfgs) and fatal is None and finished < jobs:
        try:
            msg = out_q.get(timeout=5)
        except Q.Empty:
            if not any(p.is_alive() for p in procs):
                fatal = 'the workers died'
            elif time.time() > deadline + 60:
                skipped = len(cfgs) - done
            continue
        if msg[0] == 'done':
            done += 1
            total.merge(msg[2])
            slow.append((msg[3], msg[1], msg[2].executions))
            if msg[2].violations and not any(k[0] == pid for k in known_findings()):
                break
        elif msg[0] == 'skipped':
            skipped += 1
        elif msg[0] == 'fatal':
            fatal = msg[1]
        elif msg[0] == 'bye':
            finished += 1
    for p in procs:
        p.terminate()
    for p in procs:
        p.join(5)

    if verbose:
        for s in sorted(slow, reverse=True)[:12]:
            print(f'  {s[0]:.2f}s {s[2]} executions: {cfgs[s[1]]}')
    viols = []
    if fatal is not None:
        viols.append({'config': None, 'choices': None, 'message': 'the code under test could not be run: ' + fatal, 'log': []})
    for index, choices, message, log in total.violations:
        viols.append({'config': cfgs[index], 'choices': choices, 'message': message, 'log': log})

    known = [k for k in known_findings() if k[0] == pid]
    reported, bad = set(), []
    for v in viols:
        text = json.dumps(v['config']) + ' ' + ' '.join(v['log']) + ' ' + v['message']
        hit = next((k for k in known if k[1] and k[1] in text), None)
        if hit:
            reported.add(hit)
        else:
            bad.append(v)
    for k in reported:
        print(f'KNOWN-FINDING: property={pid} {k[2]}')

    evid = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evid, 'replay'), exist_ok=True)
    wall = time.time() - t0
    exhaustive = not bad and skipped == 0 and done == len(cfgs)
    samples = total.samples[:: max(1, len(total.samples) // 6)][:6]
    doc = (mod.__doc__ or '').strip()
    record = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': len(total.states), 'transitions': total.transitions,
            'traces_validated_against_impl': total.executions,
            'samples': samples,
            'exhaustive': exhaustive,
            'configurations': len(cfgs), 'configurations_explored': done,
            'configurations_not_reached_in_time': skipped,
            'conditions_evaluated': total.evaluations,
            'choice_points': total.choice_points, 'longest_choice_sequence': total.max_depth,
            'traces_replayed_for_determinism': total.replayed,
            'rule': doc,
        },
        'assumptions': [
            'values outside the alphabets listed in DESIGN.md are not explored',
            'numpy, astropy, jax and tinygp compute what they document',
            'the reference model in mc/ref.py states the intended physics',
        ],
        'wall_s': round(wall, 2), 'violations': len(bad),
    }
    with open(os.path.join(evid, f'{pid}.json'), 'w') as f:
        json.dump(record, f, indent=1, default=str)
    print(f'{pid} {tier}: {done}/{len(cfgs)} configurations, {total.executions} executions, '
          f'{len(total.states)} states, {total.transitions} transitions, '
          f'{total.evaluations} conditions, {wall:.1f} s')
    if bad:
        v = bad[0]
        path = os.path.join(evid, 'replay', f'{pid}.json')
        v['property'] = pid
        v['tier'] = tier
        v['replay_cmd'] = f'/opt/venv/bin/python /verif/mc/run.py {pid} --replay {path}'
        with open(path, 'w') as f:
            json.dump(v, f, indent=1, default=str)
        print('  config:', json.dumps(v['config'], default=str))
        for line in v['log'][-25:]:
            print('   ', line)
        print('  ->', v['message'][:1500])
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if skipped:
        print(f'  time limit: {skipped} configurations not explored')
    return 0


if __name__ == '__main__':
    sys.exit(main())
