#!/usr/bin/env python3
"""check.py <property>: decide one property by seeded deterministic simulation.

Builds the simulator from the current tree of the repository, searches seeds in
parallel for a time budget, and either writes the evidence file and exits 0 or
minimises the first violation, replays it in a fresh process and exits 1 with
  VIOLATION property=<id> replay=<path>
Environment: VERIF_SEED, VERIF_TIER (quick|thorough), SIM_SECS (search budget),
SIM_JOBS."""
import json, os, re, struct, subprocess, sys, tempfile, time, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build  # noqa: E402
from plan import PLAN, COMMON_ASSUMPTIONS  # noqa: E402

REPLAYS = os.path.join(HERE, 'replays')


def known_findings(prop):
    """lines: 'known: property=<id> world=<w> oracle=<o> detail~=<regex> :: <text>'"""
    out = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'known: property=(\S+) world=(\S+) oracle=(\S+) detail~=(.*?) :: (.*)$', line.rstrip('\n'))
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def read_status(path):
    try:
        with open(path, 'rb') as f:
            return struct.unpack('<Q', f.read(8))[0]
    except Exception:
        return None


class Search:
    def __init__(self, prop, world, flavour, binary, secs, jobs, seed, tmp):
        self.prop, self.world, self.flavour, self.binary = prop, world, flavour, binary
        self.secs, self.jobs, self.tmp = secs, jobs, tmp
        self.base = (seed % (1 << 31)) * 1_000_000_000 + 1
        self.results, self.crashes = [], []

    def spawn(self, w, first, secs):
        st = os.path.join(self.tmp, f'{self.world}.{w}.{first}.st')
        out = open(st + '.out', 'w+')
        p = subprocess.Popen([self.binary, 'run', f'world={self.world}', f'prop={self.prop}', f'first={first}',
                              f'stride={self.jobs}', f'secs={secs:.2f}', f'status={st}'],
                             stdout=out, stderr=subprocess.PIPE if False else subprocess.DEVNULL, cwd=self.tmp)
        return dict(w=w, p=p, st=st, out=out, t0=time.time(), secs=secs)

    def run(self, on_violation):
        """on_violation(seed) -> True to stop"""
        end = time.time() + self.secs
        live = [self.spawn(w, self.base + w, self.secs) for w in range(self.jobs)]
        while live:
            time.sleep(0.05)
            for j in list(live):
                rc = j['p'].poll()
                hung = False
                if rc is None:
                    if time.time() > j['t0'] + j['secs'] + 200:
                        j['p'].kill()
                        j['p'].wait()
                        rc, hung = -9, True
                    else:
                        continue
                live.remove(j)
                j['out'].seek(0)
                text = j['out'].read()
                j['out'].close()
                if rc == 0:
                    self.results.append(json.loads(text.strip().splitlines()[-1]))
                    continue
                seed = read_status(j['st'])
                if rc == 3 or rc == 99 or rc < 0 and rc != -9 or hung:
                    if on_violation(seed, rc, text):
                        for k in live:
                            k['p'].kill()
                            k['p'].wait()
                        return
                    left = end - time.time()
                    if left > 1:  # a listed finding: go on behind it
                        live.append(self.spawn(j['w'], seed + self.jobs, left))
                    continue
                raise SystemExit(f'worker of {self.world} ended with {rc} at seed {seed}: {text[-400:]}')


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    spec = PLAN[prop]
    budget = float(os.environ.get('SIM_SECS', spec.get('secs', {}).get(tier, 38 if tier == 'quick' else 900)))
    jobs = int(os.environ.get('SIM_JOBS', str(os.cpu_count() or 8)))
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(os.environ.get('SIM_EVID', HERE), 'evidence'), exist_ok=True)
    known = known_findings(prop)
    seen_known = set()
    state = dict(violation=None, unstable=None)
    tmp = tempfile.mkdtemp(prefix='fptusim.')
    try:
        binaries = {}
        for world, flavour, share in spec['worlds']:
            if flavour not in binaries:
                binaries[flavour] = build.build(flavour)
        tb = time.time() - t0
        total = sum(s for _, _, s in spec['worlds'])
        searches = []
        for world, flavour, share in spec['worlds']:
            s = Search(prop, world, flavour, binaries[flavour], budget * share / total, jobs, seed, tmp)

            def on_violation(vseed, rc, text, s=s):
                path = os.path.join(REPLAYS, f'{prop}-{s.world}-{vseed}.json')
                if os.path.exists(path):
                    os.unlink(path)
                b = '30' if tier == 'quick' else '120'
                r = subprocess.run([s.binary, 'min', f'world={s.world}', f'prop={prop}', f'seed={vseed}',
                                    f'out={path}', f'budget={b}'], capture_output=True, text=True, cwd=tmp, errors='replace')
                sys.stdout.write(r.stdout[-1500:])
                if r.returncode != 1:
                    state['unstable'] = (s.world, vseed, r.stdout[-300:])
                    return False
                rep = json.load(open(path))
                for world, oracle, pat, txt in known:
                    if world == s.world and oracle == rep['oracle'] and re.search(pat, rep['detail']):
                        seen_known.add(txt)
                        os.unlink(path)
                        return False
                r = subprocess.run([s.binary, 'replay', f'file={path}', 'verbose'], capture_output=True, text=True,
                                   cwd=tmp, errors='replace')
                lines = [l[:240] for l in r.stdout.splitlines()]
                print('\n'.join(lines[-40:]))
                rep['flavour'] = s.flavour
                rep['trace'] = lines[-60:]
                rep['how'] = f'{os.path.relpath(s.binary, HERE)} replay file={path} verbose'
                json.dump(rep, open(path, 'w'), indent=1)
                state['violation'] = (s.world, vseed, path, r.returncode)
                return True
            s.run(on_violation)
            searches.append(s)
            if state['violation']:
                break
        if not state['violation'] and state['unstable']:
            # the worker saw a violation which a fresh process does not repeat; the raw seed is all there is
            w, vseed, txt = state['unstable']
            path = os.path.join(REPLAYS, f'{prop}-{w}-{vseed}.json')
            json.dump(dict(world=w, property=prop, seed=vseed, note='not repeatable in a fresh process', detail=txt),
                      open(path, 'w'))
            state['violation'] = (w, vseed, path, 0)
        for txt in sorted(seen_known):
            print(f'KNOWN-FINDING: property={prop} {txt}')
        write_evidence(prop, tier, seed, spec, searches, binaries, t0, tb, state, jobs, tmp)
        if state['violation']:
            print(f"VIOLATION property={prop} replay={state['violation'][2]}")
            return 1
        print(f"OK property={prop} runs={sum(r['runs'] for s in searches for r in s.results)} in {time.time()-t0:.0f}s")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write_evidence(prop, tier, seed, spec, searches, binaries, t0, tb, state, jobs, tmp):
    res = [r for s in searches for r in s.results]
    counters = {}
    for r in res:
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
    runs = sum(r['runs'] for r in res)
    secs = max([sum(r['secs'] for r in s.results) / max(1, len(s.results)) for s in searches] + [0.001])
    cpu = sum(r['secs'] for r in res) or 1
    samples = []
    for s in searches:
        try:
            r = subprocess.run([s.binary, 'one', f'world={s.world}', f'prop={prop}', f'seed={s.base}'],
                               capture_output=True, text=True, timeout=60, cwd=tmp, errors='replace')
            samples.append(dict(world=s.world, seed=s.base, trace=[l[:160] for l in r.stdout.splitlines()[:25]]))
        except Exception as e:  # the sample is only an illustration
            samples.append(dict(world=s.world, seed=s.base, trace=[str(e)]))
    group = lambda p: {k[len(p):]: v for k, v in sorted(counters.items()) if k.startswith(p)}
    cov = dict(
        evaluations=runs,
        distinct_nontrivial=sum(r['states'] for r in res),
        rule=spec['rule'] + ' distinct_nontrivial counts the distinct fingerprints (per worker, summed) of the '
             'simulated system seen at check points: ' + spec['state'] + '.',
        samples=samples,
        runs_per_hour=int(runs * 3600 / max(0.001, cpu / jobs)),
        seeds=[dict(world=s.world, flavour=s.flavour, first=s.base, stride=1, runs=sum(r['runs'] for r in s.results))
               for s in searches],
        scheduler_decisions=sum(r['choices'] for r in res),
        longest_run_decisions=max([r['longest'] for r in res] + [0]),
        simulated_time=spec.get('time', 'no clock in this world: simulated time is the number of operations below'),
        faults_injected=group('fault.'),
        operations=group('op.'),
        situations_reached=group('probe.'),
        checks_made=group('chk.'),
        real_components=spec['real'],
        stubs=spec['stubs'],
        build_s=round(tb, 1),
    )
    if 'probe.sim_us' in counters:
        cov['simulated_time_s'] = counters['probe.sim_us'] / 1e6
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'exploration'), coverage=cov,
              assumptions=COMMON_ASSUMPTIONS + spec.get('assumptions', []), wall_s=round(time.time() - t0, 1),
              violations=1 if state['violation'] else 0)
    path = os.path.join(os.environ.get('SIM_EVID', HERE), 'evidence', prop + '.json')
    json.dump(ev, open(path + '.tmp', 'w'), indent=1)
    os.replace(path + '.tmp', path)


if __name__ == '__main__':
    sys.exit(main())
