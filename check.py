#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough]

Rebuilds LLVM IR and native objects of the harnesses of a property from /repo's
working tree, generates and discharges every proof obligation (dv/engine.py),
and reports.  See DESIGN.md."""
import argparse
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from dv import build, llir, engine, solver, contracts, words, specs_int, filters, polygons     # noqa: E402
specs_int.SPECS.update(filters.SPECS)
specs_int.SPECS.update(polygons.SPECS)
from props import PROPS                                        # noqa: E402

T0 = time.time()
MODULE = None
CFG = None
TIER = 'quick'


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- proof step
def run_harness(job):
    fidx, name, limit, keyset, part = job
    try:
        m = MODULE[fidx]
        t = time.time()
        mods = {}
        words.BOUND = int(keyset[-1]) if keyset.startswith('words_bounded') else None
        while True:
            C = contracts.SETS[keyset]()
            opts = dict(time=limit - (time.time() - t))
            opts.update(CFG.get('opts', {}))
            if keyset.startswith('words'):
                S = words.WSolver(**CFG.get('solver', {}))
                opts.update(fork=True, loop_mods=mods, part=part)
                if words.BOUND:
                    opts.update(part=None, deal=part)
            else:
                S = solver.Solver(inc=keyset.startswith('polygon'), **CFG.get('solver', {}))
                if keyset.startswith('polygon'):
                    opts.update(fork=True, loop_mods=mods, part=part, small_quotients=4)
                    if keyset.startswith('polygon_ranges'):
                        opts.update(quotients_below=4)
                    if 'bounded' in keyset:
                        opts.update(part=None, deal=part)
            e = engine.Engine(m, C, S, opts)
            if keyset.startswith('words'):
                if not words.BOUND:
                    e.loop_specs = specs_int.SPECS
            if keyset.startswith('polygon') and 'bounded' not in keyset:
                e.loop_specs = specs_int.SPECS
            try:
                e.run('@vph_' + name)
                break
            except engine.Restart:
                # a loop was found to modify more memory than assumed: redo
                # the whole harness with the larger frame
                continue
        return dict(name=name, paths=e.paths,
                    obls=[dict(label=o.label, status=o.status, backend=o.backend, time=o.time, where=o.where,
                               model=o.model, goal=o.goal if o.status != 'proved' else '') for o in e.obls],
                    errors=list(e.errors), covers=dict(e.covers), executed=dict(e.executed),
                    contracts=dict(e.contract_used), solver_time=S.time, feas=S.nfeas, wall=time.time() - t)
    except BaseException as x:
        return dict(name=name, paths=0, obls=[], errors=['driver: %s\n%s' % (x, traceback.format_exc()[-1500:])],
                    covers={}, executed={}, contracts={}, solver_time=0.0, feas=0, wall=0.0)


def merge_parts(results):
    out = {}
    for r in results:
        o = out.get(r['name'])
        if o is None:
            out[r['name']] = r
            continue
        for k in ('paths', 'solver_time', 'feas', 'wall'):
            o[k] += r[k]
        for k in ('obls', 'errors'):
            o[k] = o[k] + r[k]
        for k in ('covers', 'executed', 'contracts'):
            for x, v in r[k].items():
                o[k][x] = o[k].get(x, 0) + v
    return [out[k] for k in sorted(out)]


# --------------------------------------------------------------- native step
def native(exe, *args, timeout=120):
    try:
        r = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(exe))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, ''


def search_job(job):
    exe, name, seed, secs, out, trials = job
    rc, txt = native(exe, 'search', name, seed, secs, out, trials, timeout=secs + 60)
    return name, seed, rc, txt, out


def parse_native(txt):
    cov, ens, n, ok = {}, {}, 0, 0
    for l in txt.splitlines():
        f = l.split('\t')
        if f[0] == 'COVER':
            cov[f[2]] = int(f[1])
        elif f[0] == 'ENSURE':
            ens[f[2]] = int(f[1])
        elif l.startswith('TRIALS'):
            w = l.split()
            n, ok = int(w[1]), int(w[3])
    return cov, ens, n, ok


def write_inputs(fn, label, model):
    with open(fn, 'w') as f:
        f.write('label\t%s\n' % label.replace('\n', ' '))
        for n, k, v in model:
            f.write('input\t%s\t%s\t%s\n' % (n, k, v))


def main():
    global MODULE, CFG, TIER
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', help='comma separated harness names (development)')
    ap.add_argument('-v', action='store_true')
    A = ap.parse_args()
    TIER = A.tier if A.tier in ('quick', 'thorough') else 'quick'
    prop = A.prop
    cfg = PROPS[prop]
    CFG = cfg
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay_dir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(replay_dir, exist_ok=True)
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    try:
        rc = check(prop, cfg, seed, replay_dir, work, A)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(prop, cfg, seed, replay_dir, work, A):
    global MODULE
    quick = TIER == 'quick'
    files = cfg['harness']
    from concurrent.futures import ThreadPoolExecutor
    problems = []          # (harness, obligation label, text, model)
    hard = []              # (harness, label, replay file)
    mods, exes = [None] * len(files), [None] * len(files)
    with ThreadPoolExecutor(2 * len(files)) as ex:
        fi = [ex.submit(build.module_ir, '%s/harness/%s.cc' % (HERE, f), '%s/ir_%s' % (work, f), cfg.get('src', True)) for f in files]
        fn = [ex.submit(build.native_exe, '%s/harness/%s.cc' % (HERE, f), '%s/nat_%s' % (work, f), cfg.get('native_flags', ())) for f in files]
        for i, f in enumerate(files):
            try:
                mods[i] = fi[i].result()
            except Exception as x:
                problems.append((f, 'translation of /repo to verification conditions', str(x)[-3000:], None))
            try:
                exes[i] = fn[i].result()
            except Exception as x:
                problems.append((f, 'native build of the harness', str(x)[-3000:], None))
    t_build = time.time() - T0
    MODULE = []
    jobs = []
    allnames = []
    for i, f in enumerate(files):
        if mods[i] is None:
            MODULE.append(None)
            continue
        m = llir.parse_module(open(mods[i]).read())
        MODULE.append(m)
        names = [n[5:] for n in m.functions if n.startswith('@vph_')]
        src = open('%s/harness/%s.cc' % (HERE, f)).read()
        want = re.findall(r'^VP_HARNESS\((\w+)\)', src, re.M)
        sel = cfg.get('names')
        if sel:
            want = [n for n in want if re.fullmatch(sel, n)]
        thor = set(re.findall(r'^// thorough-only:\s*(\w+)', src, re.M))
        if quick:
            want = [n for n in want if n not in thor]
        names = [n for n in names if n in want]
        if A.only:
            names = [n for n in names if n in A.only.split(',')]
        ks = cfg.get('contracts', 'geometry')
        for n in names:
            mm = re.search(r'^// contracts\(%s\):\s*(\w+)' % re.escape(n), src, re.M)
            np = re.search(r'^// parts\(%s\):\s*(\d+)' % re.escape(n), src, re.M)
            np = int(np.group(1)) if np else 1
            for k in range(np):
                jobs.append((i, n, cfg.get('limit', 240 if quick else 700), mm.group(1) if mm else ks, (k, np) if np > 1 else None))
            allnames.append((i, n))
    bounded = {}
    for f in files:
        for n, t in re.findall(r'^// bounded\((\w+)\):\s*(.*)', open('%s/harness/%s.cc' % (HERE, f)).read(), re.M):
            bounded[n] = t
    # native cross-check + non-vacuity and the proof, in parallel
    nat_secs = cfg.get('native_secs', 2 if quick else 20)
    njobs = [(exes[i], n, seed, nat_secs, os.path.join(work, 'f_%s' % n), 10 ** 9) for i, n in allnames if exes[i]]
    results, nres = [], {}
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        r1 = pool.imap_unordered(run_harness, jobs)
        r2 = pool.imap_unordered(search_job, njobs)
        for r in r1:
            results.append(r)
        for name, sd, rc, txt, out in r2:
            nres[name] = (rc, parse_native(txt), out, txt)
    results = merge_parts(results)
    n_obl = n_ok = n_bobl = n_bok = 0
    backends, executed, used = {}, {}, {}
    stime = 0.0
    vac = []
    for r in results:
        stime += r['solver_time']
        for k, v in r['executed'].items():
            executed[k] = executed.get(k, 0) + v
        for k, v in r['contracts'].items():
            used[k] = used.get(k, 0) + v
        for o in r['obls']:
            if r['name'] in bounded:
                n_bobl += 1
                n_bok += o['status'] == 'proved'
            else:
                n_obl += 1
                n_ok += o['status'] == 'proved'
            if o['status'] == 'proved':
                b = backends.setdefault(o['backend'], 0)
                backends[o['backend']] = b + 1
            else:
                problems.append((r['name'], o['label'], 'obligation %s by %s at %s\ngoal: %s' % (o['status'], o['backend'], o['where'], o['goal']), o['model']))
        for x in r['errors']:
            problems.append((r['name'], 'verification incomplete', x, None))
        src_covers = r['covers']
        if not r['errors'] and not any(src_covers.values()):
            vac.append(r['name'])
        if A.v:
            nn = nres.get(r['name'], (0, ({}, {}, 0, 0), '', ''))[1]
            log('%-38s paths %4d obl %4d unproved %d covers %s native %d/%d  %.1fs' % (
                r['name'], r['paths'], len(r['obls']), sum(o['status'] != 'proved' for o in r['obls']), r['covers'], nn[3], nn[2], r['wall']))
    # every label that is written in the harness must be reached
    for r in results:
        nr = nres.get(r['name'])
        if nr and nr[0] == 0:
            miss = [c for c in r['covers'] if not nr[1][0].get(c)]
            if miss and not all(r['covers'].get(c) for c in miss):
                vac.append('%s: %s' % (r['name'], miss))
            elif nr[1][3] == 0:
                vac.append('%s: no native input satisfies the precondition' % r['name'])
    for v in vac:
        problems.append((v.split(':')[0], 'non-vacuity: the precondition is unsatisfiable or the end is not reached', v, None))
    # native failures are violations in their own right
    for name, (rc, p, out, txt) in sorted(nres.items()):
        if rc == 3:
            label = open(out).readline().strip().split('\t')[-1] if os.path.exists(out) else 'crash'
            dst = os.path.join(replay_dir, '%s.%s.txt' % (prop, name))
            if os.path.exists(out):
                shutil.copy(out, dst)
            else:
                open(dst, 'w').write('label\t%s\n%s' % (label, txt))
            hard.append((name, label, dst))
        elif rc not in (0, 3):
            # a native run that dies in an unforeseen way
            problems.append((name, 'native run', 'exit %s\n%s' % (rc, txt[-500:]), None))
    known = load_known(prop)
    # replay the verifier's counterexamples on the real code
    failed_h = []
    for h, label, text, model in problems:
        if h not in failed_h:
            failed_h.append(h)
    exe_of = {n: exes[i] for i, n in allnames}
    if problems and not hard:
        k = 0
        for h, label, text, model in problems:
            if model and exe_of.get(h):
                k += 1
                fn_ = os.path.join(work, 'm%d' % k)
                write_inputs(fn_, label, model)
                out = os.path.join(work, 'mo%d' % k)
                rc, txt = native(exe_of[h], 'replay', h, fn_, out)
                if rc == 3:
                    dst = os.path.join(replay_dir, '%s.%s.txt' % (prop, h))
                    shutil.copy(out if os.path.exists(out) else fn_, dst)
                    lab = open(dst).readline().strip().split('\t')[-1]
                    hard.append((h, lab, dst))
        if not hard:
            # search for a failing input on the real code
            budget = max(20, min(cfg.get('search_secs', 120 if quick else 300), 800 - (time.time() - T0)))
            hs = [h for h in failed_h if exe_of.get(h)] or []
            others = [n for _, n in allnames if n not in hs and exe_of.get(n)]
            jobs2 = []
            if hs:
                per = max(5, int(budget * 8 / (len(hs) * max(1, 8 // len(hs)))) - 5)
                per = min(per, int(budget))
                for h in hs:
                    for s in range(max(1, 8 // len(hs))):
                        jobs2.append((exe_of[h], h, seed * 1000 + s + 1, per, os.path.join(work, 's_%s_%d' % (h, s)), 10 ** 9))
            for n in others[:64]:
                jobs2.append((exe_of[n], n, seed * 1000 + 77, 5, os.path.join(work, 's_%s_x' % n), 10 ** 9))
            if jobs2:
                with mp.get_context('fork').Pool(8) as pool:
                    for name, sd, rc, txt, out in pool.imap_unordered(search_job, jobs2):
                        if rc == 3 and os.path.exists(out):
                            dst = os.path.join(replay_dir, '%s.%s.txt' % (prop, name))
                            shutil.copy(out, dst)
                            hard.append((name, open(dst).readline().strip().split('\t')[-1], dst))
                            break
                    pool.terminate()
    if problems and not hard:
        problems, fellback = fallback(problems, jobs, cfg, results)
        for h, t in fellback.items():
            bounded[h] = t
        if fellback:
            allo = [(r['name'] in bounded, o['status'] == 'proved') for r in results for o in r['obls']]
            n_obl, n_ok = sum(not b for b, _ in allo), sum(p for b, p in allo if not b)
            n_bobl, n_bok = sum(b for b, _ in allo), sum(p for b, p in allo if b)
            backends = {}
            for r in results:
                for o in r['obls']:
                    if o['status'] == 'proved':
                        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    # ---- report
    for h, label, text, model in problems:
        log('FAILED-OBLIGATION harness=%s label=%s' % (h, label.replace('\n', ' ')[:160]))
        if A.v:
            log('    ' + text.replace('\n', '\n    ')[:1500], model)
    rc = 0
    nviol = 0
    reported = []
    for h, label, dst in hard:
        if any(k['harness'] == h and k['label'] == label for k in known):
            log('KNOWN-FINDING: property=%s %s: %s' % (prop, h, label))
            continue
        if h in reported:
            continue
        reported.append(h)
        with open(dst, 'a') as f:
            f.write('# replay: native replay %s <this file>; harness text in %s\n' % (h, ', '.join('harness/%s.cc' % x for x in files)))
            for ph, pl, pt, pm in problems:
                if ph == h:
                    f.write('# failed obligation: %s\n' % pl.replace('\n', ' '))
        log('VIOLATION property=%s replay=%s' % (prop, dst))
        rc, nviol = 1, nviol + 1
    if problems and not hard:
        rest = [p for p in problems if not any(k['harness'] == p[0] and k['label'] == p[1] for k in known)]
        if rest:
            dst = os.path.join(replay_dir, '%s.obligation.txt' % prop)
            with open(dst, 'w') as f:
                for h, label, text, model in rest:
                    f.write('harness %s\nfailed obligation: %s\n%s\ninputs: %s\n\n' % (h, label, text, model))
            log('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, dst))
            rc, nviol = 1, 1
    wall = time.time() - T0
    real = sorted(k for k in executed if not k.startswith('vph_') and not k.startswith('std::') and 'walnut' in k)
    ev = dict(property=prop, tier=TIER, seed=seed, level=cfg.get('level', 'proof'), wall_s=round(wall, 2), violations=nviol,
              assumptions=ASSUME + contracts.NOTES.get(cfg.get('contracts', 'geometry'), []) + cfg.get('assumptions', []),
              coverage=dict(
                  obligations=n_obl, discharged=n_ok,
                  checker_cmd='check.py %s --tier %s' % (prop, TIER),
                  trusted_base=TRUSTED,
                  bounded_obligations=n_bobl, bounded_discharged=n_bok,
                  bounded_harnesses=bounded,
                  harnesses=[dict(name=r['name'], paths=r['paths'], obligations=len(r['obls']),
                                  discharged=sum(o['status'] == 'proved' for o in r['obls']),
                                  covers=r['covers'],
                                  native_runs=nres[r['name']][1][3] if r['name'] in nres else 0,
                                  wall_s=round(r['wall'], 2)) for r in results],
                  by_backend=backends, solver_time_s=round(stime, 2), build_s=round(t_build, 2),
                  functions_under_verification=real[:400],
                  contracts_used_at_call_sites=sorted(k for k in used if not k.startswith('vp'))[:200],
                  native_crosscheck_runs=sum(v[1][3] for v in nres.values()),
                  samples=[p[1] for p in problems][:5] or [o['label'][:200] for r in results for o in r['obls'] if o['backend'] != 'syntactic'][:8],
                  explanation=cfg.get('explanation', '')))
    with open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    log('%s %s: %d obligations, %d discharged (+%d/%d bounded), %d harnesses, solver %.1fs, build %.1fs, wall %.1fs -> %s' % (
        prop, TIER, n_obl, n_ok, n_bok, n_bobl, len(results), stime, t_build, wall, 'OK' if rc == 0 else 'VIOLATION'))
    return rc


INVARIANT = re.compile(r'loop invariant of |loop of .* makes progress')
NOT_STRUCTURAL = re.compile(r'time limit|too many')


def fallback(problems, jobs, cfg, results):
    """Loop invariants are written for the loops as they are.  When a loop was
    rewritten so that its invariant no longer applies - and nothing but
    invariants failed, and no failing input was found on the real code - the
    harness is decided within a bound instead, by plain unrolling."""
    byh = {}
    for p in problems:
        byh.setdefault(p[0], []).append(p)
    cand = {}
    for h, ps in byh.items():
        js = [j for j in jobs if j[1] == h]
        if not js or 'bounded' in js[0][3] or not js[0][3].startswith(('words', 'polygon')):
            continue
        if js[0][3].startswith('polygon') and js[0][3] + '_bounded5' not in contracts.SETS:
            continue
        if not h_structural(ps):
            continue
        cand[h] = js[0]
    out = {}
    left = 840 - (time.time() - T0)
    if not cand or left < 60:
        return problems, out
    todo = []
    for h, j in cand.items():
        ks = 'words_bounded2' if j[3] in ('words_sum', 'words_arith') or h.startswith(('multiply', 'square')) else cfg.get('bounded', 'words_bounded3')
        ks = dict(words_container='words_bounded_c3', words_filter='words_bounded_f3').get(j[3], ks)
        if j[3].startswith('polygon'):
            ks = j[3] + '_bounded5'
        cand[h] = ks
        for k in range(24):
            todo.append((j[0], h, left * 8 / max(8, 24 * len(cand) / 2), ks, (k, 24)))
    res = {}
    with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(run_harness, todo):
            res.setdefault(r['name'], []).append(r)
    for h in cand:
        rs = res.get(h, [])
        bad = [o for r in rs for o in r['obls'] if o['status'] != 'proved']
        err = [x for r in rs for x in r['errors']]
        n = sum(len(r['obls']) for r in rs)
        log('BOUNDED-FALLBACK harness=%s %s: %d obligations, %d unproved, %d errors' % (h, cand[h], n, len(bad), len(err)))
        if n and not bad and not err and any(v for r in rs for v in r['covers'].values()):
            out[h] = 'loop invariants did not apply to this tree; decided for ' + (
                'polygons of at most %s vertices' if cand[h].startswith('polygon') else
                'operands of at most %s words (lists of at most so many elements)') % cand[h][-1]
            problems = [p for p in problems if p[0] != h]
            for r in results:
                if r['name'] == h:
                    r['obls'] = [o for x in rs for o in x['obls']]
                    r['errors'] = []
        else:
            for o in bad[:3]:
                problems.append((h, o['label'], 'bounded mode: obligation %s by %s at %s\ngoal: %s' % (o['status'], o['backend'], o['where'], o['goal']), None))
            for x in err[:1]:
                problems.append((h, 'verification incomplete', 'bounded mode: ' + x, None))
    return problems, out


def h_structural(ps):
    some = False
    for h, label, text, model in ps:
        if INVARIANT.match(label):
            some = True
        elif label == 'verification incomplete' and text.startswith('stopped after'):
            pass
        elif label == 'verification incomplete' and not NOT_STRUCTURAL.search(text):
            some = True
        elif label.startswith('non-vacuity'):
            pass
        else:
            return False
    return some


TRUSTED = [
    'clang 18 -O0 front end and opt -passes=sroa (the verified text is the LLVM IR they emit from /repo on this run)',
    'dv/engine.py, dv/llir.py: the verification-condition generator for LLVM IR',
    'z3 5.3 (linear, nlsat, nia), cvc5 1.1.2, sympy Groebner bases (for goals not closed by z3)',
    'harness/*.cc: the specifications themselves',
]
ASSUME = [
    'machine integers are exact two-complement bit patterns (unsigned wrap-around modelled, signed overflow is an obligation); memory allocation never fails; single-threaded execution',
    'the code is verified as compiled with assertions enabled: every assert() on a path is an obligation',
]


def load_known(prop):
    out = []
    fn = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith('known: '):
                m = re.match(r'known: property=(\S+) harness=(\S+) label=(.*)', l)
                if m and m.group(1) == prop:
                    out.append(dict(harness=m.group(2), label=m.group(3)))
    return out


if __name__ == '__main__':
    main()
