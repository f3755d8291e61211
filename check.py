#!/usr/bin/env python3
"""Runs the check of one property:  check.py C15 [--tier quick|thorough] [--replay FILE] [--unit NAME] [--scenario S]

Builds the harness units of the property from the current working tree of /repo (VERIF_REPO overrides the path), runs the
exploration, classifies what it found against known_findings.json, writes evidence/<id>.json.
Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed. Exit 2: the check itself could not run."""
import argparse, concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'checks'))
from config import CHECKS  # noqa: E402

BASE = ['-std=c++17', '-g1', '-w', '-DCURRENT_CI', '-I' + REPO, '-I' + os.path.join(HERE, 'engine'), '-I' + os.path.join(HERE, 'checks')]


def sh(cmd, timeout=None, env=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=env)


def compile_obj(src, obj, flags, cc='g++'):
    r = sh([cc] + flags + ['-c', src, '-o', obj])
    return r.returncode, r.stdout


def unit_flags(u):
    f = list(BASE)
    if u['engine'] == 'sched':
        f += [u.get('opt', '-O1'), '-fsanitize=thread']
    else:
        f += [u.get('opt', '-O1')]
        san = u.get('san', 'address')
        if san:
            f += ['-fsanitize=' + san, '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
    return f + list(u.get('cxx', []))


def build(pid, cfg, bdir, only_unit=None):
    os.makedirs(bdir, exist_ok=True)
    jobs, need = [], set()
    units = [u for u in cfg['units'] if only_unit in (None, u['name'])]
    for u in units:
        need.add('mcrt' if u['engine'] == 'sched' else 'enumrt')
        jobs.append((os.path.join(HERE, 'checks', u['src']), os.path.join(bdir, u['name'] + '.o'), unit_flags(u), u.get('cc', 'g++')))
        for e in u.get('extra', []):
            jobs.append((os.path.join(HERE, e), os.path.join(bdir, u['name'] + '-' + os.path.basename(e) + '.o'), ['-std=c++17', '-O2', '-g', '-I' + os.path.join(HERE, 'engine')]))
    for n in need:
        jobs.append((os.path.join(HERE, 'engine', n + '.cc'), os.path.join(bdir, n + '.o'), ['-std=c++17', '-O2', '-g', '-w']))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for (src, obj, *fl), (rc, out) in zip(jobs, ex.map(lambda j: compile_obj(*j), jobs)):
            if rc:
                print('CHECK-ERROR: property=%s cannot compile %s\n%s' % (pid, src, out[-6000:]))
                return False
    for u in units:
        objs = [os.path.join(bdir, u['name'] + '.o')] + [os.path.join(bdir, u['name'] + '-' + os.path.basename(e) + '.o') for e in u.get('extra', [])]
        cmd = [u.get('cc', 'g++'), '-o', os.path.join(bdir, u['name'])]
        if u['engine'] == 'sched':
            cmd += ['-no-pie'] + objs + [os.path.join(bdir, 'mcrt.o')]
        else:
            cmd += objs + [os.path.join(bdir, 'enumrt.o')]
            if u.get('san', 'address'):
                cmd += ['-fsanitize=' + u.get('san', 'address')]
        cmd += ['-pthread', '-ldl'] + list(u.get('ld', []))
        r = sh(cmd)
        if r.returncode:
            print('CHECK-ERROR: property=%s cannot link %s\n%s' % (pid, u['name'], r.stdout[-6000:]))
            return False
    return True


def listed(v):
    return ' '.join(str(x) for x in v) if isinstance(v, list) else str(v)


def run_env(tmp):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0:allocator_may_return_null=0:max_allocation_size_mb=4096:detect_stack_use_after_return=0:malloc_context_size=6:quarantine_size_mb=32'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    e['TMPDIR'] = tmp
    return e


def symbolize(binary, msg):
    pcs = sorted(set(re.findall(r'pc:(0x[0-9a-f]+)', msg)))
    if not pcs:
        return msg
    r = sh(['addr2line', '-f', '-C', '-e', binary] + pcs)
    lines = r.stdout.splitlines()
    for i, p in enumerate(pcs):
        if 2 * i + 1 < len(lines):
            fn = lines[2 * i][:120]
            loc = lines[2 * i + 1].split(' ')[0]
            msg = msg.replace('pc:' + p, '[%s %s]' % (fn, loc))
    return msg


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--unit')
    ap.add_argument('--scenario')
    ap.add_argument('--time', type=float)
    ap.add_argument('--bound', type=int)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args()
    pid, tier = a.id, ('thorough' if a.tier == 'thorough' else 'quick')
    cfg = CHECKS[pid]
    t0 = time.time()
    tag = '' if REPO == '/repo' else '-' + hashlib.md5(REPO.encode()).hexdigest()[:6]
    bdir = os.path.join(HERE, 'build', pid + tag)
    if os.path.isdir(bdir):
        shutil.rmtree(bdir)
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if a.replay:
        head = dict(l.rstrip('\n').split('=', 1) for l in open(a.replay) if '=' in l)
        unit = head.get('unit', a.unit)
        if not build(pid, cfg, bdir, unit):
            return 2
        tmp = tempfile.mkdtemp(prefix='verif')
        r = sh([os.path.join(bdir, unit), '--replay', os.path.abspath(a.replay)] + (['--delay', head['delay']] if 'delay' in head else []), env=run_env(tmp))
        shutil.rmtree(tmp, ignore_errors=True)
        print(symbolize(os.path.join(bdir, unit), r.stdout))
        return r.returncode
    if not build(pid, cfg, bdir, a.unit):
        return 2
    t_build = time.time() - t0
    findings = [f for f in json.load(open(os.path.join(HERE, 'known_findings.json'))) if f['property'] == pid and f.get('status') == 'known']
    known = {f['sig']: f for f in findings}
    tmp = tempfile.mkdtemp(prefix='verif')
    units_ev, samples, viols, known_hit, err = [], [], [], {}, False
    tot = dict(states=0, transitions=0, executions=0, evaluations=0)
    exhaustive = True
    for u in cfg['units']:
        if a.unit and u['name'] != a.unit:
            continue
        p = dict(u.get('quick', {}))
        if tier == 'thorough':
            p.update(u.get('thorough', {}))
        binary = os.path.join(bdir, u['name'])
        outj = os.path.join(tmp, u['name'] + '.json')
        tl = a.time or p.get('time', 30)
        cmd = [binary, '--out', outj, '--time', str(tl), '--workers', '8']
        if u['engine'] == 'sched':
            b = a.bound if a.bound is not None else p.get('bound', 2)
            cmd += ['--bound', str(b), '--minbound', str(min(b, p.get('minbound', 0 if u.get('delay') else 1)))]
            if u.get('delay'):
                cmd += ['--delay', '1']
        else:
            if tier == 'thorough':
                cmd += ['--thorough']
            for k, v in p.get('params', {}).items():
                cmd += ['--param', '%s=%d' % (k, v)]
        if a.scenario:
            cmd += ['--scenario', a.scenario]
        for s in known:
            cmd += ['--known', s]
        try:
            r = sh(cmd, timeout=tl * 3 + 300, env=run_env(tmp))
        except subprocess.TimeoutExpired:
            print('CHECK-ERROR: property=%s unit %s timed out' % (pid, u['name']))
            err = True
            continue
        try:
            res = json.load(open(outj), strict=False)
        except Exception as e:
            print('CHECK-ERROR: property=%s unit %s gave no result (%s), exit %s\n%s' % (pid, u['name'], e, r.returncode, r.stdout[-3000:]))
            err = True
            continue
        for f in os.listdir(bdir):
            if '.scratch-' in f:
                os.unlink(os.path.join(bdir, f))
        for s in res:
            sv = s.get('violations', [])
            if u['engine'] == 'sched' and s.get('completed_bound', 0) < s.get('requested_bound', 0):
                exhaustive = False
            ev = {k: s[k] for k in ('scenario', 'completed_bound', 'executions', 'executions_at_bound', 'evaluations', 'steps', 'transitions', 'states', 'pruned', 'horizons', 'skipped', 'exhaustive', 'wall') if k in s}
            ev['unit'] = u['name']
            if isinstance(s.get('outcomes'), (int, list)):
                ev['distinct_outcomes'] = s['outcomes'] if isinstance(s['outcomes'], int) else len(s['outcomes'])
            units_ev.append(ev)
            if s.get('error') or s.get('engine_errors'):
                print('CHECK-NOTE: property=%s %s/%s: %s %s' % (pid, u['name'], s['scenario'], s.get('error', ''), str(s.get('engine_errors', ''))[:500]))
            tot['states'] += s.get('states', 0)
            tot['transitions'] += s.get('steps', s.get('transitions', 0))
            tot['executions'] += s.get('executions', 0)
            tot['evaluations'] += s.get('evaluations', s.get('executions', 0))
            if s.get('exhaustive') is False:
                exhaustive = False
            for x in s.get('samples', [])[:2]:
                samples.append('%s/%s: %s' % (u['name'], s['scenario'], str(x)[:600]))
            for v in sv:
                if ':ENGINE-' in v['sig']:
                    print('CHECK-NOTE: property=%s engine: %s %s' % (pid, v['sig'], v['msg'][:500]))
                    err = True
                    continue
                if v['sig'] in known:
                    known_hit[v['sig']] = v
                    continue
                if v.get('unstable'):
                    print('CHECK-NOTE: property=%s unstable report ignored: %s' % (pid, v['sig']))
                    continue
                name = re.sub(r'[^A-Za-z0-9_.-]+', '_', '%s-%s-%s' % (pid, u['name'], v['sig']))[:150] + '.replay'
                path = os.path.join(rdir, name)
                with open(path, 'w') as f:
                    f.write('check=%s\nunit=%s\nscenario=%s\n' % (pid, u['name'], s['scenario']))
                    if u.get('delay'):
                        f.write('delay=1\n')
                    if u['engine'] == 'sched':
                        f.write('slots=%s\nshared=%s\n' % (listed(v.get('slots', '')), listed(v.get('shared', ''))))
                    else:
                        for k, pv in p.get('params', {}).items():
                            f.write('param=%s=%d\n' % (k, pv))
                        if tier == 'thorough':
                            f.write('thorough=1\n')
                    f.write('choices=%s\n' % listed(v.get('choices', '')))
                if u['engine'] == 'enum' and v['sig'].endswith(':hang'):
                    rr = sh([binary, '--replay', path], env=run_env(tmp))
                    if rr.returncode == 0:
                        print('CHECK-NOTE: property=%s a slow execution was not a hang: %s' % (pid, v['sig']))
                        continue
                viols.append((v['sig'], symbolize(binary, v['msg']), v.get('note', ''), path))
    shutil.rmtree(tmp, ignore_errors=True)
    cov = dict(samples=samples[:20] or ['(none)'], per_scenario=units_ev, build_s=round(t_build, 1))
    lvl = cfg['level']
    if lvl == 'model_checking':
        cov.update(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['executions'], exhaustive=exhaustive)
    else:
        cov.update(evaluations=tot['evaluations'], distinct_nontrivial=tot['states'] or tot['executions'], rule=cfg.get('rule', ''), exhaustive=exhaustive)
        if tot['transitions']:
            cov['transitions'] = tot['transitions']
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=lvl, coverage=cov,
              assumptions=cfg.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(viols),
              known_findings=sorted(known_hit))
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for sig, f in known.items():
        # Listed findings are announced whether or not this (bounded) run came across them.
        print('KNOWN-FINDING: property=%s %s%s' % (pid, f['what'], '' if sig in known_hit else ' [not re-encountered within this run\'s bounds]'))
    for u in units_ev:
        extra = ('bound %s' % u['completed_bound']) if 'completed_bound' in u else ('exhaustive' if u.get('exhaustive') else 'TRUNCATED')
        print('  %s/%s: %s executions=%s states=%s transitions=%s %.1fs%s' % (u['unit'], u['scenario'], extra, u.get('executions'), u.get('states'), u.get('steps', u.get('transitions')), u.get('wall', 0), ' horizons=%s' % u['horizons'] if u.get('horizons') else ''))
    for sig, msg, note, path in viols:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s\n  %s\n  history: %s' % (sig, msg[:3000], note[:1500]))
    print('%s %s: %d violation(s), %.1fs (build %.1fs)' % (pid, tier, len(viols), time.time() - t0, t_build))
    if viols:
        return 1
    return 2 if err else 0


if __name__ == '__main__':
    sys.exit(main())
