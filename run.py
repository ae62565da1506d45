#!/usr/bin/env python3
"""Driver: run.py <property> [--tier quick|thorough] [--replay FILE] [--cfg CFG] [--keep]

Builds libVc and the property's harness binaries from /repo's working tree for every configuration,
runs the exhaustive explorations, confirms each failure by replaying it, matches it against
known_findings.txt, writes evidence/<property>.json and exits 0 / 1 (VIOLATION).
"""
import concurrent.futures, sys, os, re, json, time, hashlib, subprocess, fnmatch, shutil, threading, queue
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VC_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, HERE)
from units import PROPS, CONFIGS, LIBOBJS, LIBSETS

JOBS = int(os.environ.get('MC_JOBS', '8'))
BASE = ['-std=c++14', '-w', '-ftemplate-depth=256', '-ffp-contract=off', '-fwrapv', '-DNDEBUG']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode() + b'\0')
                try:
                    with open(p, 'rb') as fh: h.update(hashlib.sha256(fh.read()).digest())
                except OSError: pass
    return h.hexdigest()[:20]

class Job:
    """node of the build/run graph"""
    def __init__(self, name, deps, fn):
        self.name, self.deps, self.fn = name, deps, fn
        self.result, self.done = None, False

def run_graph(jobs, nthreads):
    lock = threading.Condition()
    pending = list(jobs); active = [0]
    def worker():
        while True:
            with lock:
                while True:
                    ready = next((j for j in pending if all(d.done for d in j.deps)), None)
                    if ready: pending.remove(ready); active[0] += 1; break
                    if not pending: return
                    lock.wait()
            try: r = ready.fn()
            except Exception as e: r = ('exception', repr(e))
            with lock:
                ready.result = r; ready.done = True; active[0] -= 1
                lock.notify_all()
    ts = [threading.Thread(target=worker) for _ in range(nthreads)]
    for t in ts: t.start()
    for t in ts: t.join()

def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only_cfg = None; replay = None
    args = []
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--cfg': only_cfg = a.pop(0).split(',')
        elif x == '--replay': replay = a.pop(0)
        else: args.append(x)
    site = None; unit_filter = None
    if replay:
        r = json.load(open(replay))
        args = [r['property']]; tier = r['tier']; site = r['site']; unit_filter = r['unit']
        print('replaying', json.dumps(r, indent=1))
    prop = args[0]
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = PROPS[prop]
    srch = tree_hash([os.path.join(REPO, 'Vc'), os.path.join(REPO, 'src')])
    harh = tree_hash([os.path.join(HERE, 'harness')])
    bdir = os.path.join(BUILD, srch)
    os.makedirs(bdir, exist_ok=True)
    # drop other trees' builds (disk)
    now = time.time()
    for d in os.listdir(BUILD):
        p = os.path.join(BUILD, d)
        try:
            if d != srch and now - os.path.getmtime(p) > 6 * 3600: shutil.rmtree(p, ignore_errors=True)
        except OSError: pass
    os.utime(bdir)
    compile_errors = []
    timings = []

    def compile_job(out, cmd, deps, what):
        def fn():
            if any(isinstance(d.result, tuple) for d in deps): return ('dep',)
            if os.path.exists(out): return out
            t = time.time()
            tmp = out + '.%d.tmp' % os.getpid()
            c = [tmp if x == '@OUT' else x for x in cmd]
            for attempt in (1, 2):
                p = sh(c)
                if p.returncode == 0 or (p.returncode == 1 and 'Killed' not in p.stdout): break
            timings.append((time.time() - t, 'compile ' + what))
            if p.returncode != 0:
                compile_errors.append((what, p.stdout, c))
                return ('compile-error', p.stdout)
            os.replace(tmp, out)
            return out
        return Job('compile ' + what, deps, fn)

    known = load_known(prop)
    failfast = os.environ.get('MC_FAILFAST')
    jobs = []
    mainobj = os.path.join(bdir, 'mc_main_%s.o' % harh)
    jmain = compile_job(mainobj, ['g++', '-std=c++14', '-O1', '-w', '-I', HERE + '/harness', '-c', HERE + '/harness/mc_main.cpp', '-o', '@OUT'], [], 'mc_main')
    jobs.append(jmain)
    libjobs = {}
    def libjob(name):
        if name not in libjobs:
            src, flags = LIBOBJS[name]
            out = os.path.join(bdir, 'lib_%s.o' % name)
            libjobs[name] = compile_job(out, ['g++', '-std=c++14', '-w', '-O2', '-DNDEBUG', '-ftemplate-depth=128', '-fabi-version=0', '-ffp-contract=fast', '-DVc_COMPILE_LIB', '-fPIC', '-I', REPO] + flags + ['-c', os.path.join(REPO, 'src', src), '-o', '@OUT'], [], 'libVc ' + name)
            jobs.append(libjobs[name])
        return libjobs[name]
    ars = {}
    def arjob(which):
        # members in the order of the project's CMakeLists.txt: the linker takes the first definition
        if which not in ars:
            names = LIBSETS[which]
            deps = [libjob(n) for n in names]
            out = os.path.join(bdir, 'libVc_%s.a' % which)
            def fn():
                if any(isinstance(d.result, tuple) for d in deps): return ('dep',)
                if os.path.exists(out): return out
                tmp = out + '.%d.tmp' % os.getpid()
                p = sh(['ar', 'qcs', tmp] + [os.path.join(bdir, 'lib_%s.o' % n) for n in names])
                if p.returncode: compile_errors.append(('ar', p.stdout, [])); return ('compile-error', p.stdout)
                os.replace(tmp, out); return out
            ars[which] = Job('ar ' + which, deps, fn); jobs.append(ars[which])
        return ars[which]
    units = []
    for u in spec['units']:
        for cfg in u['configs' if tier == 'quick' else 'thorough_configs']:
            if only_cfg and cfg not in only_cfg: continue
            for var in u['variants']:
                name = '%s.%s.%s' % (u['src'].replace('.cpp', ''), cfg, '_'.join('%s%s' % (k, v) for k, v in var.items()) or 'all')
                if unit_filter and name != unit_filter: continue
                units.append((name, u, cfg, var))
    results = {}
    unit_jobs = []
    for name, u, cfg, var in units:
        C = CONFIGS[cfg]
        lj = [arjob(u.get('libs', 'MINI'))] if u.get('link', True) else []
        flags = [f for f in BASE if f not in u.get('drop', ())] + C['flags'] + ['-O%s' % u.get('opt', C.get('opt', '1'))] + ['-DMC_CFG="%s"' % cfg, '-I', REPO, '-I', HERE + '/harness'] + ['-D%s=%s' % kv for kv in var.items()] + u.get('flags', [])
        cxx = C.get('cxx', 'g++')
        key = hashlib.sha256(json.dumps([cxx, flags, u['src'], harh]).encode()).hexdigest()[:16]
        binp = os.path.join(bdir, '%s_%s' % (name, key))
        objs = [mainobj] + ([os.path.join(bdir, 'libVc_%s.a' % u.get('libs', 'MINI'))] if u.get('link', True) else [])
        cmd = [cxx] + flags + [os.path.join(HERE, 'harness', u['src'])] + objs + ['-o', '@OUT'] + u.get('ldflags', [])
        if u.get('custom'):
            import custom
            cj = Job('custom ' + name, [jmain] + lj, (lambda u=u, binp=binp, flags=flags, objs=objs, cxx=cxx: getattr(custom, u['custom'])(REPO, HERE, bdir, binp, cxx, flags, objs, compile_errors)))
        else:
            cj = compile_job(binp, cmd, [jmain] + lj, name)
        jobs.append(cj)
        def run(name=name, binp=binp, cj=cj, u=u, u_cfg=cfg):
            if isinstance(cj.result, tuple): return cj.result
            t = time.time()
            env = dict(os.environ)
            env['VERIF_SEED'] = str(seed)
            if site: env['MC_SITE'] = site
            r = None
            for attempt in (1, 2):
                try:
                    r = subprocess.run(['setarch', '-R', binp] if u.get('noaslr') else [binp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, timeout=u.get('timeout', 780 if tier == 'quick' else 6 * 3600))
                    break
                except subprocess.TimeoutExpired: r = None
                if tier == 'quick': break
            timings.append((time.time() - t, 'run ' + name))
            if failfast and r is not None:
                done, f = parse(r.stdout, None, [], set(), name, [])
                f = [x for x in f if not match_known(known, u_cfg, x[0], x[1])]
                if f or not done:
                    print('FAILFAST %s %s' % (name, f[:1] or r.stdout[-300:])); sys.stdout.flush(); os._exit(1)
            return r
        rj = Job('run ' + name, [cj], run)
        jobs.append(rj); unit_jobs.append((name, u, cfg, rj, binp))
    # sort: lib first, then others as given
    run_graph(jobs, JOBS)

    tot = dict(states=0, transitions=0, traces=0, checks=0, fails=0, sites=0, outcomes=0)
    samples = []; fails = []; broken = []; sites = set(); per_unit = []
    for name, u, cfg, rj, binp in unit_jobs:
        r = rj.result
        if r is None: broken.append((name, 'timeout')); continue
        if isinstance(r, tuple):
            if r[0] == 'exception': broken.append((name, r[1]))
            continue
        done, f = parse(r.stdout, tot, samples, sites, name, per_unit)
        if not done and not any(x[0] != '' for x in f):
            f.append(('(process)', 'exit status %s' % r.returncode, (r.stderr or '')[-500:] + ' | ' + r.stdout[-300:]))
        if f:
            # replay before reporting: only failures that recur deterministically are believed
            def again(site):
                r2 = subprocess.run((['setarch', '-R'] if u.get('noaslr') else []) + [binp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=dict(os.environ, **({'MC_SITE': site} if site and site[0] != '(' else {})))
                return parse(r2.stdout, None, [], set(), name, [])[1]
            with concurrent.futures.ThreadPoolExecutor(JOBS) as ex: f2 = [x for l in ex.map(again, sorted(set(x[0] for x in f))[:400]) for x in l]
            s2 = set((x[0], x[1]) for x in f2)
            if any((x[0], x[1]) not in s2 for x in f):
                # a failure that depends on what ran before (e.g. stale register contents): the whole unit must fail in the same site again
                f3 = again(None)
                s3 = set(x[0] for x in f3)
                s2 |= set((x[0], x[1]) for x in f if x[0] in s3)
            for x in f:
                if (x[0], x[1]) in s2 or x[0] == '(process)' or not f2 and False: fails.append((name, cfg) + x)
                else: broken.append((name, 'failure did not recur on replay: %r' % (x,)))
    # a public-API harness that no longer compiles against the tree: the API property is broken
    for what, log, c in compile_errors:
        if what == 'mc_main': broken.append((what, log[-2000:])); continue
        errs = [l for l in log.split('\n') if 'error' in l or 'undefined' in l or 'multiple' in l]
        fails.append((what, '*', '(compile)', what, ' | '.join(errs[:4]) or log[-1000:]))
    rc = 0; nviol = 0; reported = set()
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    kseen = {}
    for name, cfg, s, i, d in fails:
        k = match_known(known, cfg, s, i)
        if k: kseen.setdefault(k['id'], (k, []))[1].append((cfg, s, i, d)); continue
        nviol += 1
        if (s, cfg) in reported and s != '(compile)': continue
        reported.add((s, cfg)); rc = 1
        if os.environ.get('MC_LIST'): print('FAIL %s | %s | %s' % (cfg, s, (i[-60:] + ' :: ' + d)[:240] if i else d[:240])); continue
        if len(reported) <= 25:
            path = os.path.join(HERE, 'replay', '%s-%d.json' % (prop, len(reported)))
            json.dump(dict(property=prop, tier=tier, unit=name, config=cfg, site=s, input=i, detail=d,
                           how='cd /verif && ./run.py --replay ' + path), open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   unit=%s op="%s" input=%s :: %s' % (name, s, i[:300], d[:600]))
        rc = 1
    for kid, (k, l) in sorted(kseen.items()):
        print('KNOWN-FINDING: property=%s %s (%d failing states observed, e.g. %s %s)' % (prop, k['text'], len(l), l[0][0], l[0][2][:120]))
    for n, e in broken:
        print('BROKEN-CHECK unit=%s %s' % (n, e))
    if broken and rc == 0: rc = 2
    wall = time.time() - t0
    level = spec.get('level', 'model_checking')
    cov = dict(sites=len(sites), units=len(unit_jobs), lane_checks=tot['checks'], distinct_outcomes_lower_bound=tot['outcomes'],
               configurations=sorted(set(x[2] for x in unit_jobs)), samples=samples[:12] or ['(none)'],
               bounds=spec.get('bounds', ''), exhaustive=True)
    if level == 'model_checking':
        cov.update(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['traces'])
    else:
        cov.update(evaluations=tot['transitions'], distinct_nontrivial=tot['states'], rule=spec.get('rule', spec.get('bounds', '')))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(wall, 2), violations=nviol,
              assumptions=spec.get('assumptions', ['the compiler and the CPU implement the instructions used correctly', 'configurations needing FMA4/XOP/SSE4a are not executable here and are not explored']))
    if not replay and not only_cfg:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s tier=%s states=%d transitions=%d traces=%d checks=%d sites=%d units=%d violations=%d wall=%.1fs' % (prop, tier, tot['states'], tot['transitions'], tot['traces'], tot['checks'], len(sites), len(unit_jobs), nviol, wall))
    if os.environ.get('MC_TIMING'):
        for t, w in sorted(timings, reverse=True)[:20]: print('   %.1fs %s' % (t, w))
    if os.environ.get('MC_UNITS'):
        for x in per_unit: print('   ', x)
    sys.exit(rc)

def parse(out, tot, samples, sites, name, per_unit):
    done = False; f = []
    for line in out.split('\n'):
        p = line.split('\t')
        if p[0] == 'FAIL' and len(p) >= 4: f.append((p[1], p[2], p[3]))
        elif p[0] == 'COUNT' and tot is not None:
            for kv in p[1:]:
                k, v = kv.split('='); tot[k] += int(v)
            per_unit.append(name + ' ' + ' '.join(p[1:]))
        elif p[0] == 'SAMPLE' and len(samples) < 60: samples.append(name + ' ' + p[1])
        elif p[0] == 'SITE': sites.add(p[1])
        elif p[0] == 'DONE': done = True
    return done, f

def load_known(prop):
    """known_findings.txt:  finding: property=P config=GLOB site=GLOB input=REGEX -- text
                            fixed: property=P commit what   (suppresses nothing)"""
    r = []
    p = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(p): return r
    for n, line in enumerate(open(p)):
        m = re.match(r'finding: property=(\S+) config=(\S+) site="([^"]*)" input="([^"]*)" -- (.*)', line.strip())
        if m and m.group(1) == prop:
            r.append(dict(id=n, config=m.group(2), site=m.group(3), input=m.group(4), text=m.group(5)))
    return r

def match_known(known, cfg, s, i):
    for k in known:
        if any(fnmatch.fnmatchcase(cfg, c) for c in k['config'].split(',')) and re.fullmatch(k['site'], s) and re.fullmatch(k['input'], i): return k
    return None

if __name__ == '__main__': main()
