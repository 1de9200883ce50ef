#!/usr/bin/env python3
"""check.py <property> : builds the harnesses of one property against /repo's
working tree, explores generated cases, writes evidence/<property>.json.
exit 0: held on everything explored; exit 1: VIOLATION line."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PC_REPO', '/repo')
sys.path.insert(0, HERE)
from checks import CHECKS

COMMON = ['-gline-tables-only', '-I' + REPO, '-I' + HERE + '/rt', '-I' + HERE + '/props',
          '-Wno-deprecated-declarations', '-Wno-unknown-warning-option', '-fno-pie',
          '-ftemplate-backtrace-limit=3']
MODES = {
    # controlled schedules: compiler instrumentation, our own runtime
    'sched': (['-O1', '-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0', '-DRT_SCHED'],
              ['-O2', '-DRT_SCHED'], ['-no-pie', '-rdynamic', '-lpthread', '-ldl']),
    # sequential histories under address and undefined behaviour sanitizers
    'asan': (['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
             ['-O1', '-fno-sanitize=all'], ['-no-pie', '-rdynamic', '-fsanitize=address,undefined', '-lpthread', '-ldl']),
    # the same without the (slow to compile) undefined behaviour part
    'asan0': (['-O1', '-fsanitize=address', '-fno-omit-frame-pointer'],
              ['-O1'], ['-no-pie', '-rdynamic', '-fsanitize=address', '-lpthread', '-ldl']),
}


# sources whose compile time matters more than their speed
OPT = {'machine_%s.cpp' % t: ['-O0'] for t in ('cpy', 'mov', 'void', 'ref')}
OPT.update({'zoo_types.cpp': ['-O0'], 'zoo_calls.cpp': ['-O0']})


def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'portable_concurrency')):
        out += [os.path.join(d, f) for f in fs if f.endswith(('.cpp', '.cc', '.cxx'))]
    return sorted(out)


def run(cmd, log):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        log.append('$ ' + ' '.join(cmd) + '\n' + p.stdout[-12000:])
    return p.returncode


def build(prop, spec, bdir):
    """returns (binaries, None) or (None, log)"""
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    stds = {(h['mode'], h.get('std', 'c++17')) for h in spec['runs']}
    jobs, log = {}, []
    for mode, std in stds:
        inst, plain, _ = MODES[mode]
        tag = mode + std.replace('+', 'x')
        s = ['-std=' + std]
        jobs[(tag, 'rt')] = ['clang++', *s, *COMMON, *plain, '-c', HERE + '/rt/rt.cpp', '-o', f'{bdir}/{tag}.rt.o']
        for i, src in enumerate(lib_sources()):
            jobs[(tag, 'lib%d' % i)] = ['clang++', *s, *COMMON, *inst, '-c', src, '-o', f'{bdir}/{tag}.lib{i}.o']
    for h in spec['runs']:
        mode, std = h['mode'], h.get('std', 'c++17')
        tag = mode + std.replace('+', 'x')
        inst, _, _ = MODES[mode]
        for src in h['src']:
            d = h.get('defs', []) if not src.startswith('machine_') or src == 'machine_core.cpp' else []
            name = src.replace('/', '_').replace('.cpp', '') + '.' + '_'.join(d)
            h.setdefault('objs', []).append(f'{bdir}/{tag}.{name}.o')
            jobs[(tag, name)] = ['clang++', '-std=' + std, *COMMON, *inst, *['-D' + x for x in d], *OPT.get(src, []), '-c',
                                 f'{HERE}/props/{src}', '-o', f'{bdir}/{tag}.{name}.o']
    with ThreadPoolExecutor(8) as ex:
        rcs = list(ex.map(lambda c: run(c, log), jobs.values()))
    if any(rcs):
        return None, '\n'.join(log)
    links = []
    for k, h in enumerate(spec['runs']):
        mode, std = h['mode'], h.get('std', 'c++17')
        tag = mode + std.replace('+', 'x')
        libs = [c[-1] for (t, n), c in jobs.items() if t == tag and n.startswith('lib')]
        h['bin'] = f'{bdir}/run{k}'
        links.append(['clang++', *h['objs'], *libs, f'{bdir}/{tag}.rt.o', '-o', h['bin'], *MODES[mode][2]])
    with ThreadPoolExecutor(8) as ex:
        rcs = list(ex.map(lambda c: run(c, log), links))
    if any(rcs):
        return None, '\n'.join(log)
    return True, None


def symbolize(binary, text):
    def rep(m):
        try:
            o = subprocess.run(['addr2line', '-Cfe', binary, m.group(1)], stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, timeout=20).stdout.split('\n')
            return '%s (%s)' % (o[1].replace(REPO + '/', '').replace(HERE + '/', ''), o[0][:120])
        except Exception:
            return m.group(0)
    return re.sub(r'pc=(0x[0-9a-f]+)', rep, text)


def main():
    prop = sys.argv[1]
    replay = sys.argv[2] if len(sys.argv) > 2 else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = CHECKS[prop]
    t0 = time.time()
    bdir = os.path.join(HERE, 'build', prop)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    os.makedirs(HERE + '/replays', exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'exploration'),
          'coverage': {}, 'assumptions': spec.get('assumptions', []), 'violations': 0}

    def finish(rc):
        ev['wall_s'] = round(time.time() - t0, 2)
        with open(f'{HERE}/evidence/{prop}.json', 'w') as f:
            json.dump(ev, f, indent=1)
        if not os.environ.get('PC_KEEP'):
            shutil.rmtree(bdir, ignore_errors=True)
        sys.stdout.flush()
        sys.exit(rc)

    ok, log = build(prop, spec, bdir)
    if not ok:  # once more, in case the machine was short of something
        for h in spec['runs']:
            h.pop('objs', None)
        ok, log = build(prop, spec, bdir)
    if not ok:
        # programs that are valid uses of the library no longer compile or link
        path = f'{HERE}/replays/{prop}.build.log'
        open(path, 'w').write(log)
        sys.stdout.write(log[-3000:] + '\n')
        ev['coverage'] = {'evaluations': 1, 'distinct_nontrivial': 0,
                          'rule': 'the harness is a valid program over the public interface; it does not build any more',
                          'samples': [log[-1500:]]}
        ev['violations'] = 1
        print(f'VIOLATION property={prop} replay={path}')
        finish(1)
    build_s = time.time() - t0

    if replay:
        idx = 0
        for line in open(replay):
            m = re.match(r'# run (\d+)', line)
            if m:
                idx = int(m.group(1))
        b = spec['runs'][idx]['bin']
        p = subprocess.run([b, '--replay', replay], stdout=subprocess.PIPE, text=True)
        print(symbolize(b, p.stdout))
        sys.exit(p.returncode)

    tot = {'evaluations': 0, 'distinct_nontrivial': 0, 'distinct_executions': 0, 'sync_steps': 0,
           'preemptions': 0, 'threads_started': 0}
    rules, samples, per, labels = [], [], [], {}
    bad = 0
    for k, h in enumerate(spec['runs']):
        out = f'{bdir}/run{k}.json'
        rp = f'{HERE}/replays/{prop}.{k}.replay'
        if os.path.exists(rp):
            os.remove(rp)
        cases = h['quick'] if tier == 'quick' else h.get('thorough', h['quick'] * 20)
        cap = h.get('cap', 150) if tier == 'quick' else h.get('tcap', 1500)
        cmd = [h['bin'], '--seed', str(seed + 7919 * k), '--cases', str(cases), '--out', out, '--replay-out', rp,
               '--cap-ms', str(cap * 1000), '--workers', str(os.cpu_count() or 8)]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode not in (0, 1):
            print(p.stdout[-3000:])
            print(f'check error: harness exited with {p.returncode}')
            finish(2)
        r = json.load(open(out))
        for key in tot:
            tot[key] += r[key]
        if r['rule'] not in rules:
            rules.append(r['rule'])
        samples += [s[:1500] for s in r['samples'][:2]]
        per.append({x: r[x] for x in ('harness', 'evaluations', 'nontrivial', 'distinct_nontrivial', 'distinct_executions',
                                      'discarded', 'unreproducible', 'time_capped', 'wall_s', 'labels')}
                   | {'build': h['mode'], 'asked': cases})
        for l, n in r['labels'].items():
            labels[l] = labels.get(l, 0) + n
        if p.returncode == 1:
            text = symbolize(h['bin'], p.stdout)
            print(text[-4000:])
            with open(rp, 'a') as f:
                f.write(f'# run {k}\n# property {prop}\n# ' + text.replace('\n', '\n# ') + '\n')
            print(f'VIOLATION property={prop} replay={rp}')
            bad = 1
            break
    ev['violations'] = bad
    ev['coverage'] = dict(tot, rule=' | '.join(rules), samples=samples[:6], labels=labels, runs=per,
                          build_s=round(build_s, 1))
    if not bad:
        print(f"ok property={prop} evaluations={tot['evaluations']} distinct_nontrivial={tot['distinct_nontrivial']} "
              f"executions={tot['distinct_executions']} wall={time.time() - t0:.1f}s")
    finish(1 if bad else 0)


main()
