"""
python -m mc.run C01            run the check of property C01 (tier from VERIF_TIER)
python -m mc.run --replay FILE  replay a recorded violation
"""
import os
import re
import sys
import json
import time
import shutil
import pathlib
import tempfile
import importlib
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('CSVW_REPO', '/repo'))

from . import explore  # noqa: E402


def known_findings(pid):
    """`finding: property=C01 key=<json string> <what fails>` -> {key: what fails}"""
    res = {}
    p = ROOT / 'known_findings.txt'
    for line in p.read_text(encoding='utf8').splitlines() if p.exists() else []:
        m = re.match(r'finding: property=(\S+) key=("(?:[^"\\]|\\.)*") (.*)$', line)
        if m and m.group(1) == pid:
            res[json.loads(m.group(2))] = m.group(3)
    return res


def setup_target():
    # Always compile csvw from the source files of the working tree, never use cached bytecode.
    import importlib.machinery

    class FromSource(importlib.machinery.SourceFileLoader):
        def path_stats(self, path):
            raise OSError('no bytecode')

    src = str(REPO / 'src')

    class Finder(importlib.machinery.PathFinder):
        @classmethod
        def find_spec(cls, name, path=None, target=None):
            if name == 'csvw' or name.startswith('csvw.'):
                finder = importlib.machinery.FileFinder(
                    src if name == 'csvw' else list(path)[0], (FromSource, ['.py']))
                return finder.find_spec(name)

    sys.meta_path.insert(0, Finder)
    if src not in sys.path:
        sys.path.insert(0, src)
    import csvw
    got = pathlib.Path(csvw.__file__).resolve()
    if got != (REPO / 'src' / 'csvw' / '__init__.py').resolve():
        raise explore.HarnessError('checking the wrong csvw: {}'.format(got))


def load(pid):
    return importlib.import_module('checks.' + pid.lower())


def replay_script(path):
    return """#!/bin/bash
# Replays the recorded execution without the explorer: exit 1 if it still violates the property.
cd {root} && exec bash check.sh --replay {path}
""".format(root=ROOT, path=path)


def do_replay(path, quiet=False):
    spec = json.loads(pathlib.Path(path).read_text(encoding='utf8'))
    mod = load(spec['property'])
    hs = {h.name: h for h in mod.HARNESSES}
    known = known_findings(spec['property'])
    tmp = tempfile.mkdtemp(prefix='csvwreplay')
    try:
        for hname, prefix in spec.get('needs_history') or []:
            explore.run_one(hs[hname], prefix, tmp, known, spec['tier'])
        c, viol = explore.run_one(hs[spec['harness']], spec['choices'], tmp, known, spec['tier'])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if not quiet:
        print('trace:', c.sample)
        print('result:', viol or 'no violation')
    return viol


def main(argv):
    if argv[0] == '--replay':
        setup_target()
        sys.exit(1 if do_replay(argv[1]) else 0)
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    wall = int(os.environ.get('MC_WALL', '600' if tier == 'quick' else '14400'))
    t0 = time.time()
    setup_target()
    mod = load(pid)
    known = known_findings(pid)
    ex = explore.Explorer(mod.HARNESSES, tier, known, wall=wall).run()

    outdir = pathlib.Path(os.environ.get('MC_OUT', ROOT)) / 'out' / 'replays'
    code = 0
    lines = []
    if ex.violation:
        code = 1
        outdir.mkdir(parents=True, exist_ok=True)
        v = dict(ex.violation, property=pid, tier=tier)
        history = v.pop('history', [])
        path = outdir / '{}-{}.json'.format(pid, explore.digest(
            (v['harness'], v['choices'], v['key'])).hex())

        def save():
            path.write_text(json.dumps(v, indent=1, default=repr), encoding='utf8')

        save()
        # Does the execution fail on its own, or only after others in the same process (i.e.
        # through state leaking from one to the next)?  In a child, to leave no trace here.
        def attempt():
            pid_ = os.fork()
            if pid_ == 0:
                rc = 3
                try:
                    sys.stdout = open(os.devnull, 'w')
                    rc = 1 if do_replay(str(path), quiet=True) else 0
                finally:
                    os._exit(rc)
            return os.waitstatus_to_exitcode(os.waitpid(pid_, 0)[1]) == 1

        v['reproduced_alone'] = attempt()
        if not v['reproduced_alone']:
            n = 1
            while True:
                v['needs_history'] = history[-n:]
                save()
                if attempt() or n >= len(history):
                    break
                n *= 4
        save()
        path.with_suffix('.sh').write_text(replay_script(path))
        print('property {} violated in harness {} after {} deviations'.format(
            pid, v['harness'], sum(1 for x in v['choices'] if x)))
        print('  key:', v['key'])
        print('  trace:', str(v['sample'])[:2000])
        print('  ' + str(v['msg'])[:3000].replace('\n', '\n  '))
        print('VIOLATION property={} replay={}'.format(pid, path))
    for key in sorted(ex.known_hits):
        print('KNOWN-FINDING: property={} {}'.format(pid, known[key]))

    states = set()
    for name, st in ex.stats.items():
        states |= {name.encode() + s for s in st['states']}
    cov = dict(
        states=len(states),
        transitions=sum(st['edges'] + st['ops'] for st in ex.stats.values()),
        traces_validated_against_impl=sum(
            st['executions'] + st['traces'] for st in ex.stats.values()),
        exhaustive=not any(st['capped'] for st in ex.stats.values()) and not ex.violation,
        harnesses={name: dict(
            about=' '.join(ex.harnesses[name].doc.split()),
            deviation_bound=st['bound'],
            deviation_bound_completed=st['completed_bound'],
            executions=st['executions'], executions_per_level=st['per_level'],
            choice_edges=st['edges'], inner_steps=st['ops'], inner_traces=st['traces'],
            distinct_states=len(st['states']), distinct_outcomes=len(st['outcomes']),
            max_choice_depth=st['maxdepth'], capped=st['capped'], wall_s=st['wall_s'],
        ) for name, st in ex.stats.items()},
        known_findings_seen=sorted(ex.known_hits),
        samples=ex.samples[:12],
    )
    cov['evaluations'] = sum(st['executions'] + st['traces'] for st in ex.stats.values())
    cov['distinct_nontrivial'] = sum(len(st['outcomes']) for st in ex.stats.values())
    cov['rule'] = getattr(mod, 'RULE', 'executions of the harnesses are all choice sequences within '
                          'the deviation bound; distinct_nontrivial counts distinct observed outcomes')
    if getattr(mod, 'LEVEL', 'model_checking') == 'model_checking':
        for k in ('evaluations', 'distinct_nontrivial', 'rule'):
            cov.pop(k)
    else:
        cov.pop('traces_validated_against_impl')
    ev = dict(
        property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'model_checking'),
        coverage=cov,
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.time() - t0, 2),
        violations=1 if ex.violation else 0)
    out = pathlib.Path(os.environ.get('MC_OUT', ROOT))
    (out / 'evidence').mkdir(exist_ok=True)
    (out / 'evidence' / '{}.json'.format(pid)).write_text(
        json.dumps(ev, indent=1, default=repr), encoding='utf8')
    print('{} {}: {} states, {} transitions, {} executions{}, {:.1f}s'.format(
        pid, tier, cov['states'], cov['transitions'],
        sum(st['executions'] + st['traces'] for st in ex.stats.values()),
        '' if cov['exhaustive'] else ' (NOT exhaustive)', time.time() - t0))
    for name, st in ex.stats.items():
        print('   {:28s} bound {}/{} exec {} {} inner {}/{} states {} outcomes {} {}s'.format(
            name, st['completed_bound'], st['bound'], st['executions'], st['per_level'],
            st['ops'], st['traces'], len(st['states']), len(st['outcomes']), st['wall_s']))
    sys.stdout.flush()
    return code


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('ERROR: the check itself failed')
        rc = 3
    sys.exit(rc)
