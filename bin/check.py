#!/usr/bin/env python3
"""check.py ID : decide one property for /repo's current tree.

exit 0  the property held on everything explored
exit 1  with a line `VIOLATION property=ID replay=PATH [no-failing-input-found]`
"""
import concurrent.futures as cf
import json, os, re, struct, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx
from table import WORLDS, ASSUME, NOTES

VERIF, REPO, BUILD = vx.VERIF, vx.REPO, vx.BUILD
INFRA = ('could not compile', 'cannot find')


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)


# ------------------------------------------------------------------ deductive part
def prove(prop, world, rlimit, canary):
    """-> dict(world, status: proved|failed|undecided, why, ...)"""
    out = dict(world=world)
    world, _, facet = world.partition(':')
    cprop = facet or prop
    try:
        w = vx.World(world, cprop)
    except vx.Lost as e:
        return dict(out, status='undecided', why='extraction: %s' % e)
    d = os.path.join(BUILD, 'vx', prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, world.replace('.vs', '.rs'))
    open(path, 'w').write(w.text())
    r = vx.run_verus(path, rlimit=rlimit, timeout=500)
    out.update(file=path, wall=r['wall'], verified=r.get('verified', 0), errors=r.get('errors', 0),
               functions=[f['key'] for f in w.fns], cmd=' '.join(r['cmd']), trusted=w.trusted())
    tm = r.get('js', {}).get('times-ms', {})
    out['solver_ms'] = tm.get('smt', {}).get('total', tm.get('smt', {}).get('smt-run')) if isinstance(tm.get('smt'), dict) else None
    if r['status'] == 'ok':
        if r['verified'] < len(w.fns):
            return dict(out, status='undecided', why='vacuity guard: %d verified units for %d functions' % (r['verified'], len(w.fns)))
        out['status'] = 'proved'
        if canary:
            wc = vx.World(world, cprop, canary=True)
            pc = path.replace('.rs', '_canary.rs')
            open(pc, 'w').write(wc.text())
            rc = vx.run_verus(pc, rlimit=10, timeout=300)
            hit = set()
            for dg in rc['diags']:
                for s in dg['spans']:
                    f = wc.where(s['line_start'])
                    if f:
                        hit.add(f['key'])
            dead = [f['key'] for f in wc.fns if f['key'] not in hit]
            out['canary'] = dict(functions=len(wc.fns), entered=len(wc.fns) - len(dead), dead=dead)
            if dead:
                return dict(out, status='undecided', why='vacuity guard: contradictory assumptions in ' + ', '.join(dead))
        return out
    if r['status'] in ('timeout', 'unsupported'):
        msg = '; '.join(x['message'][:200] for x in r['diags'][:3]) or '; '.join(r.get('raw', []))[:300]
        return dict(out, status='undecided', why='%s: %s' % (r['status'], msg))
    base = json.load(open(os.path.join(vx.SPECS, 'shapes.json')))
    fails = []
    for dg in r['diags']:
        m = dg['message']
        vague = 'rlimit' in m or 'Resource limit' in m or 'timeout' in m
        fns = [w.where(s['line_start']) for s in dg['spans']]
        fns = [f for f in fns if f]
        tagged = any(w.tagged(s['line_start']) for s in dg['spans'])
        clause = [s['text'][0]['text'].strip() for s in dg['spans'] if s['text']]
        keys = sorted({f['key'] for f in fns})
        # the loops, closures and callees that the hints were written for, no helper inlined
        same_shape = bool(fns) and any(f['key'] in base.get(w.world, {}) and base[w.world][f['key']] == f['shape'] and not f['inlined'] for f in fns)
        # a function without loops and without proof hints: its contract is refused for what it computes, however
        # it is written
        plain = bool(fns) and m.startswith('postcondition not satisfied') and world != 'sph.vs' and not any(f['hints'] for f in fns)
        fails.append(dict(message=m, vague=vague, functions=keys, tagged=tagged, clause=clause, same_shape=same_shape, plain=plain,
                          rendered=dg.get('rendered', '')))
    return dict(out, status='failed', fails=fails, why='; '.join('%s in %s: %s' % (f['message'], ','.join(f['functions']) or '?', ' / '.join(f['clause'])[:200]) for f in fails[:4]))


def definite(x):
    return x['tagged'] and not x['vague'] and (x['same_shape'] or x['plain'])


# ------------------------------------------------------------------ bit-precise facts (Kani)
FACTS = ['f32s::mid_in', 'f32s::sub_in', 'f64s::mid_in', 'f64s::sub_in', 'ints::mid_in', 'ints::sub_in',
         'geos::rect_new', 'geos::rect_size', 'geos::rect_intersects', 'geos::bounding']
# of the crate's own functions: harness -> in the quick tier too?
OWN = {'C11': [('euclid_rects', True)], 'C14': [('sphere_pt_rect', True)], 'C16': [('radians', True)], 'C19': [('sphere_rects', False)]}


def kani(prop, tier):
    """harnesses of /verif/kani (loop-free, all numbers): facts that the contracts of this property take for granted,
    and what its own functions do on machine numbers"""
    own = [h for h, q in OWN.get(prop, []) if q or tier == 'thorough']
    hs = (FACTS if tier == 'thorough' and any('Kani' in a for a in ASSUME.get(prop, [])) else []) + ['real_code::' + h for h in own]
    if not hs:
        return None
    t = time.time()
    out = dict(ok=False, harnesses=hs, verified=0, bad=[])
    env = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(BUILD, 'kani-target'))
    d = os.path.join(VERIF, 'kani')

    def run(h, *more, timeout=700):
        cmd = ['cargo', 'kani', '--output-format=terse', *more]
        for x in h:
            cmd += ['--harness', x]
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, start_new_session=True)
        try:
            return p.communicate(timeout=timeout)[0]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            raise
    try:
        s = run(hs, '-j', '3', timeout=700 if tier == 'thorough' else 300)
        m = re.search(r'Complete - (\d+) successfully verified harnesses, (\d+) failures', s)
        out.update(ok=bool(m) and m.group(2) == '0' and m.group(1) == str(len(hs)), verified=int(m.group(1)) if m else 0, wall=round(time.time() - t, 1))
        if not out['ok']:
            out['why'] = s[-300:]
        for h in own:
            if not re.search(r'Verification failed for - real_code::%s\b' % h, s):
                continue
            # the numbers Kani found, on the real crate
            s2 = run(['real_code::' + h], '-Z', 'concrete-playback', '--concrete-playback=print', timeout=300)
            for test in s2.split('Concrete playback unit test')[1:]:
                if 'Check for `cover`' in test:
                    continue
                bs = [[int(x) for x in b.split(',') if x.strip()] for b in re.findall(r'vec!\[([\d, ]*)\]', test)]
                bits = ['%016x' % struct.unpack('<Q', bytes(b))[0] for b in bs if len(b) == 8]
                cmd = ['cargo', 'run', '--offline', '--quiet', '--bin', 'replay', '--', h, *bits]
                r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=200,
                                   env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'kani-replay')))
                if r.returncode == 1 and 'FAILS' in r.stdout:
                    out['bad'].append(dict(harness=h, cmd=' '.join(cmd), output=r.stdout))
                    break
    except Exception as e:
        out['why'] = 'no result: ' + str(e)[-200:]
    return out


# ------------------------------------------------------------------ concrete part
DRV = os.path.join(BUILD, 'driver-target/debug/qtdriver')


def drive(prop, seed, budget_ms, lane):
    pf = os.path.join(BUILD, 'progress_%s_%d' % (prop, lane))
    s = seed * 1000 + lane
    try:
        r = sh([DRV, 'run', prop, str(s), str(budget_ms), '1000000000', pf], budget_ms / 1000 + 120)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        rc, out = 'hang', ''
    if rc == 0 and out.startswith('OK'):
        m = re.match(r'OK cases=(\d+) nontrivial=(\d+)', out)
        return dict(ok=True, cases=int(m.group(1)), nontrivial=int(m.group(2)),
                    samples=[l[7:] for l in out.split('\n') if l.startswith('SAMPLE ')])
    if rc == 1 and out.startswith('FAIL'):
        n = re.search(r'case=(\d+) cases=(\d+) nontrivial=(\d+)', out)
        why = re.search(r'^WHY (.*)', out, re.M)
        inp = re.search(r'^INPUT (.*)', out, re.M)
        return dict(ok=False, seed=s, case=int(n.group(1)), cases=int(n.group(2)), nontrivial=int(n.group(3)),
                    why=why.group(1) if why else '?', input=inp.group(1) if inp else '?')
    # crashed or hung: the case in the progress file
    try:
        n = struct.unpack('<Q', open(pf, 'rb').read(8))[0]
    except Exception:
        return dict(ok=None, why='driver ended with %s' % rc)
    i = sh([DRV, 'input', prop, str(s), str(n)], 60)
    try:
        a = sh([DRV, 'show', prop, str(s), str(n), 'x'], 100)
        again = a.returncode
    except subprocess.TimeoutExpired:
        again = 'hang'
    if again == 0:
        return dict(ok=None, why='driver ended with %s on case %d, which passes when repeated' % (rc, n))
    return dict(ok=False, seed=s, case=n, cases=n + 1, nontrivial=n, why='the process %s' % ('does not end' if again == 'hang' else 'crashes (%s)' % again),
                input=i.stdout.strip())


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2].startswith('--tier='):
        tier = sys.argv[2][7:]
    tier = 'thorough' if tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    worlds = WORLDS[prop]
    # numbers that are new in the source: the driver looks around them
    words = vx.unusual()
    os.environ['QT_DICT'] = ','.join(repr(float(x)) for x in words)
    budget = 20_000 if tier == 'quick' else 200_000
    lanes = 4 if tier == 'quick' else 6
    with cf.ThreadPoolExecutor(12) as ex:
        fx = ex.submit(vx.build_tool, 'extract')
        fd = ex.submit(vx.build_tool, 'driver')
        okx, logx = fx.result()
        pf = []
        if okx:
            pf = [ex.submit(prove, prop, w, 60 if tier == 'quick' else 120, True) for w in worlds]
        kf = ex.submit(kani, prop, tier)
        okd, logd = fd.result()
        lf = [ex.submit(drive, prop, seed, budget, i) for i in range(lanes)] if okd else []
        proofs = []
        for w, f in zip(worlds, pf):
            try:
                proofs.append(f.result())
            except Exception as e:
                proofs.append(dict(world=w, status='undecided', why='internal: ' + traceback.format_exc()[-400:]))
        if not okx:
            proofs = [dict(world=w, status='undecided', why='extractor does not build: ' + logx[-300:]) for w in worlds]
        runs = [f.result() for f in lf]
        if okd and not all(p['status'] == 'proved' for p in proofs) and all(r['ok'] for r in runs) \
                and not any(definite(x) for p in proofs for x in p.get('fails', [])):
            # no proof and no refusal that counts: search longer
            lf = [ex.submit(drive, prop, seed, 120_000, 10 + i) for i in range(8)]
            runs += [f.result() for f in lf]
    kn = kf.result()
    bad = [r for r in runs if r['ok'] is False]
    failed = [p for p in proofs if p['status'] == 'failed']
    undecided = [p for p in proofs if p['status'] == 'undecided']
    known = [l.split(' ', 2) for l in open(os.path.join(VERIF, 'known_findings.txt')) if l.startswith('KNOWN ')]
    rep = os.path.join(BUILD, 'replay')
    os.makedirs(rep, exist_ok=True)
    rp = os.path.join(rep, prop + '.txt')
    verdict, viol = 0, 0
    if bad:
        b = bad[0]
        with open(rp, 'w') as f:
            f.write('property %s fails on the real crate\n\n%s\n\ninput: %s\n\n' % (prop, b['why'], b['input']))
            f.write('repeat: cd %s/driver && QT_DICT=%s CARGO_TARGET_DIR=%s/driver-target cargo run --offline --quiet -- show %s %d %d\n\n' % (VERIF, os.environ['QT_DICT'], BUILD, prop, b['seed'], b['case']))
            for p in failed:
                f.write('failed obligations: %s\n' % p['why'])
                for x in p['fails']:
                    f.write(x['rendered'] + '\n')
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  ' + b['why'][:1500])
        print('  input: ' + b['input'][:600])
        for p in failed:
            print('  failed obligation: ' + p['why'][:600])
        verdict, viol = 1, 1
    elif kn and kn['bad']:
        b = kn['bad'][0]
        with open(rp, 'w') as f:
            f.write('property %s: Kani refuses harness %s of /verif/kani/src/facts.rs, and its counterexample fails on the real crate:\n\n%s\nrepeat: cd %s/kani && CARGO_TARGET_DIR=%s/kani-replay %s\n\n' % (prop, b['harness'], b['output'], VERIF, BUILD, b['cmd']))
            for p in failed:
                f.write('failed obligations: %s\n' % p['why'])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  kani %s: %s' % (b['harness'], b['output'][:600]))
        verdict, viol = 1, 1
    elif failed:
        sure = [x for p in failed for x in p['fails'] if definite(x)]
        if sure:
            with open(rp, 'w') as f:
                f.write('property %s: an obligation that the contracts of /verif/specs generate from the current source is refused; no failing input found in %d cases\n\n' % (prop, sum(r.get('cases', 0) for r in runs)))
                for x in sure:
                    f.write('%s\n  in %s\n  clause: %s\n%s\n' % (x['message'], ', '.join(x['functions']), ' / '.join(x['clause']), x['rendered']))
            for x in sure[:3]:
                print('  failed obligation: %s in %s: %s' % (x['message'], ', '.join(x['functions']), ' / '.join(x['clause'])[:300]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
            verdict, viol = 1, 1
    total = sum(p.get('verified', 0) + p.get('errors', 0) for p in proofs)
    disch = sum(p.get('verified', 0) for p in proofs)
    all_proved = all(p['status'] == 'proved' for p in proofs) and bool(proofs)
    cov = dict(obligations=total, discharged=disch,
               checker_cmd='; '.join(sorted({p['cmd'] for p in proofs if 'cmd' in p})) or 'none',
               trusted_base=sorted({t for p in proofs for t in p.get('trusted', [])} | {'verus 0.2026.09.13 and its z3', '/verif/extract (syntactic extraction)', 'rustc'}),
               decided_by='proof' if all_proved else 'bounded search on the real crate where the proof is missing',
               functions_under_contract=sorted({k for p in proofs for k in p.get('functions', [])}),
               worlds=[{k: p.get(k) for k in ('world', 'status', 'why', 'verified', 'errors', 'wall', 'solver_ms', 'canary')} for p in proofs],
               dictionary=words,
               kani=kn if kn else 'thorough tier only' if prop in OWN or any('Kani' in a for a in ASSUME.get(prop, [])) else 'none for this property',
               evaluations=sum(r.get('cases', 0) for r in runs), nontrivial_evaluations=sum(r.get('nontrivial', 0) for r in runs),
               rule='driver: random trees / shapes checked against an independent oracle on the real crate; non-trivial: more data than max_children',
               samples=[s for r in runs for s in r.get('samples', [])][:3],
               driver=[{k: r.get(k) for k in ('ok', 'cases', 'why')} for r in runs] if okd else 'does not build: ' + logd[-400:])
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=ASSUME.get(prop, []), wall_s=round(time.time() - t0, 1), violations=viol)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if verdict == 0 and not all_proved and not any(r['ok'] for r in runs):
        print('UNDECIDED %s: neither a proof nor a run of the real crate: %s %s' % (prop, '; '.join(p.get('why', '') for p in proofs)[:600], '' if okd else logd[-600:]))
        verdict = 2
    if verdict == 0:
        for k in known:
            if k[1] == 'property=' + prop:
                print('KNOWN-FINDING: property=%s %s' % (prop, k[2].strip()))
        if kn:
            print('kani: %s' % ('%d bit-precise harnesses verified' % kn['verified'] if kn['ok'] else 'NOT verified: %s' % kn.get('why', '')))
        print('%s %s: %d/%d obligations discharged%s, %d cases on the real crate without failure, %.0f s' % (
            prop, 'proved' if all_proved else 'NOT PROVED, bounded', disch, total,
            '' if all_proved else ' (' + '; '.join(p['why'] for p in proofs if p['status'] != 'proved')[:500] + ')',
            cov['evaluations'], ev['wall_s']))
    sys.exit(verdict)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except Exception:
        # an error of the machinery is no verdict about the code: exit 2, neither held nor violated
        traceback.print_exc()
        print('UNDECIDED: internal error of the check')
        try:
            json.dump(dict(property=sys.argv[1], tier='quick', seed=1, level='proof', coverage=dict(obligations=0, discharged=0, checker_cmd='none', trusted_base=[], explanation='internal error of the check'), wall_s=0.0, violations=0),
                      open(os.path.join(VERIF, 'evidence', sys.argv[1] + '.json'), 'w'))
        except Exception:
            pass
        sys.exit(2)
