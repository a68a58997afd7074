"""Runs the solver-based check of one property: build, execute symbolically, replay, report."""
import json, os, sys, time, subprocess, tempfile, itertools, re, shutil, threading
from concurrent.futures import ThreadPoolExecutor
from . import build as bd
V = bd.V
def known():
    p = os.path.join(V, 'known_findings.json'); return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}
class Job:
    def __init__(s, src, entry='fsx_main', q=None, t=None, bounds='', covers=(), **kw):
        s.src, s.entry, s.q, s.t, s.bounds, s.covers, s.kw = src, entry, q or {}, t, bounds, list(covers), kw
    def conf(s, tier):
        c = dict(defs=(), shards={}, timeout=150, tus=None, extra=(), samples=4, preempt=2, args=(), memkinds=True); c.update(s.kw); c.update(s.q)
        if tier == 'thorough':
            c['timeout'] = 1500
            if s.t: c.update(s.t)
        return c
def repro(exe, entry, inputs, want, obs=None, timeout=60):
    """Runs the real code on concrete inputs. Returns (status, text)."""
    d = tempfile.mkdtemp(prefix='fsxr'); f = os.path.join(d, 'in.txt'); open(f, 'w').write(replay_text(inputs, want))
    os.mkdir(d + '/s'); env = dict(os.environ, FSX_SCRATCH=d + '/s', ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0')
    try:
        try: p = subprocess.run([exe, entry, f] + ([obs] if obs else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=env, preexec_fn=lambda: __import__('resource').setrlimit(__import__('resource').RLIMIT_CORE, (0, 0)))
        except subprocess.TimeoutExpired: return 'hang', 'no answer within %d s' % timeout
        rc = p.returncode; t = p.stdout[-4000:]
        return ('ok' if rc == 0 else 'assert' if rc == 77 else 'skip' if rc == 78 else 'asan' if rc == 99 else 'crash' if rc < 0 else 'rc%d' % rc), t
    finally: shutil.rmtree(d, ignore_errors=True)
def replay_text(inputs, want): return ''.join('in\t%s\t%d\t%s\n' % (n, k, b) for n, k, b in inputs) + ('want %s\n' % want if want else '')
def main(prop, checks, tier=None):
    tier = tier or os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time(); chk = checks[prop]; budget = 780 if tier == 'quick' else 6 * 3600
    only = os.environ.get('FSX_JOBS'); jobs = [j for j in chk['jobs'] if tier == 'thorough' or not j.kw.get('thorough_only')]
    if only: jobs = [j for j in jobs if re.search(only, j.src + ':' + j.entry)]
    fsx = None; eng_err = []
    def mk():
        try: eng_err.append(('ok', bd.engine()))
        except Exception as e: eng_err.append(('err', str(e)))
    th = threading.Thread(target=mk); th.start()
    confs = [(j, j.conf(tier)) for j in jobs]; groups = {}
    for j, c in confs: groups.setdefault((tuple(c['tus']) if c['tus'] is not None else None, tuple(c['extra'])), {}).setdefault((j.src, tuple(c['defs'])), set()).add(j.entry)
    mods = {}
    def buildmods(force_full=False):
        for (tus, extra), hs in groups.items():
            for x, m in bd.bitcode(list(hs), None if force_full else tus, extra, {k: sorted(v) for k, v in hs.items()}).items(): mods[(tus, extra, x)] = m
    buildmods(); th.join()
    if eng_err[0][0] != 'ok': print('engine does not build: ' + eng_err[0][1]); return 2
    fsx = eng_err[0][1]; tb = time.time() - t0; results = []
    def runone(a):
        j, c, fix = a; left = budget - (time.time() - t0); to = max(10, min(c['timeout'], left)); o = tempfile.mktemp(prefix='fsxo'); m = mods[(tuple(c['tus']) if c['tus'] is not None else None, tuple(c['extra']), (j.src, tuple(c['defs'])))]
        cmd = [fsx, m, '--entry', j.entry, '--out', o, '--timeout', str(to), '--samples', str(c['samples']), '--seed', str(seed), '--preempt', str(c['preempt']), '--mem', str(c.get('mem', 5))] + list(c['args'])
        for k, v in fix: cmd += ['--fix', '%s=%d' % (k, v)]
        try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=to + 60); err = p.stdout
        except subprocess.TimeoutExpired: err = 'engine did not stop in time'
        try: r = json.load(open(o))
        except Exception: r = None
        if os.path.exists(o): os.unlink(o)
        return j, c, fix, r, err
    def runall():
        work = []
        for j, c in confs:
            dims = [[(k, i) for i in range(n)] for k, n in c['shards'].items()]
            for fix in itertools.product(*dims) if dims else [()]: work.append((j, c, fix))
        with ThreadPoolExecutor(bd.NCPU) as ex: return list(ex.map(runone, work))
    results = runall()
    ext = [n for _, _, _, r, _ in results if r for n in r['inconclusive_notes'] if n.startswith('unsupported external')]
    if ext and any(k[0] is not None for k in groups): buildmods(True); results = runall()   # a callee moved to another translation unit
    # ---- collect ----
    kf = known(); agg = {k: 0 for k in ('paths', 'forks', 'infeasible', 'instructions', 'asserts', 'asserts_folded', 'asserts_solver', 'assumes', 'inconclusive', 'concretizations', 'queries', 'z3_queries', 'cache_hits', 'model_hits', 'domain_decided', 'solver_unknown', 'z3_time')}
    funcs = {}; sites = {}; notes = {}; per = []; viols = []; samples = []; timed = []; errors = []; kfseen = {}; cov = {}
    for j, c, fix, r, err in results:
        tag = j.src.split('.')[0] + ':' + j.entry + ''.join(' %s=%d' % f for f in fix)
        if r is None: errors.append(tag + ': ' + err[-300:]); continue
        for k in agg: agg[k] += r.get(k, 0)
        for f, fl in r['functions']:
            if fl.startswith(bd.REPO) or ('/' not in fl and fl): funcs[f] = os.path.basename(fl)
        for k, n in r['assert_sites'].items(): sites[k] = sites.get(k, 0) + n
        for k, n in r['inconclusive_notes'].items(): notes[k] = notes.get(k, 0) + n
        for k, n in r['cover'].items(): cov.setdefault(j, {}); cov[j][k] = cov[j].get(k, 0) + n
        for k in r['cover']:
            if k.startswith('KF:'): kfseen[k[3:]] = kfseen.get(k[3:], 0) + r['cover'][k]
        if r['timed_out'] or r['pending']: timed.append('%s (%d paths finished, %d pending)' % (tag, r['paths'], r['pending']))
        per.append(dict(job=tag, paths=r['paths'], queries=r['queries'], solver_s=round(r['z3_time'], 2), wall_s=round(r['wall'], 2), complete=not (r['timed_out'] or r['inconclusive'] or r['pending']), bounds=j.bounds if not fix else ''))
        for v in r['violations']: viols.append((j, c, fix, v))
        for s in r['samples']: samples.append((j, c, s))
    reported = []; unconf = []; kfout = []; exes = {}
    def exe(j, c):
        k = (j.src, tuple(c['defs']))
        if k not in exes: exes.update(bd.native([k], None, ()))
        return exes[k]
    kfids = {f['id']: f for f in kf['findings']}
    for k in kfseen:
        if k in kfids and kfids[k]['property'] == prop: kfout.append((k, kfids[k]['what']))
        elif k not in kfids: reported.append((None, 'a deviation that is not listed as known: ' + k, '', None))
    seen = set()
    for j, c, fix, v in viols:
        key = (j.entry, v['kind'], v['msg'], v['where'])
        if key in seen or len(reported) >= 4: continue
        inputs = [(n, k, b) for n, k, b in v['inputs']]; want = v['msg'] if v['kind'] == 'assert' else ''
        native_ok = c.get('native', True)
        if native_ok:
            try: st, txt = repro(exe(j, c), j.entry, inputs, want)
            except bd.BuildError as e: st, txt = 'nobuild', str(e)
            conf = (st == 'assert') if v['kind'] == 'assert' else st in ('asan', 'crash', 'hang') or (st.startswith('rc') and st != 'rc2')
        else: st, txt, conf = 'engine-only', '', True
        if not conf:
            unconf.append(dict(job=j.entry, kind=v['kind'], msg=v['msg'], where=v['where'], native=st, detail=txt[-400:])); continue
        seen.add(key); rp = os.path.join(V, 'build', 'replay', '%s-%d.txt' % (prop, len(reported))); os.makedirs(os.path.dirname(rp), exist_ok=True)
        open(rp, 'w').write('# property %s, harness %s entry %s defs %s\n# %s: %s\n# at %s\n# stack %s\n# native replay: %s\n' % (prop, j.src, j.entry, ','.join(c['defs']), v['kind'], v['msg'], v['where'], v['stack'], st) + replay_text(inputs, want) + ('sched %s\n' % json.dumps(v['sched']) if v['sched'] else '') + '# ' + txt.replace('\n', '\n# ') + '\n')
        reported.append((rp, '%s: %s at %s (replayed on the compiled code: %s)' % (v['kind'], v['msg'], v['where'], st), v, inputs))
    # ---- validate sampled paths against the compiled code ----
    validated = 0; mism = []
    nat = [(j, c, s) for j, c, s in samples if c.get('native', True)]
    if nat and not reported and os.environ.get('FSX_NOVALIDATE') is None and (tier == 'thorough' or time.time() - t0 < 400):
        keys = sorted({(j.src, tuple(c['defs'])) for j, c, _ in nat}, key=str); lim = 24 if tier == 'quick' else 200
        try:
            exes.update(bd.native(keys, None, ())); step = max(1, len(nat) // lim); pick = nat[::step][:lim]
            def val(a):
                j, c, s = a; ob = tempfile.mktemp(prefix='fsxobs'); st, txt = repro(exes[(j.src, tuple(c['defs']))], j.entry, [tuple(i) for i in s['inputs']], '*', ob)
                got = [tuple(l.split(' ')[1:]) for l in (open(ob).read().splitlines() if os.path.exists(ob) else []) if l.startswith('obs ')]
                if os.path.exists(ob): os.unlink(ob)
                exp = [(n, b) for n, b in s['obs']]; return st == 'ok' and [(g[0], g[1] if len(g) > 1 else '') for g in got] == exp, (j.entry, st, txt[-300:], exp[:6], got[:6], s['inputs'])
            for ok, d in bd.pmap(val, pick):
                if ok: validated += 1
                else: mism.append(d)
        except bd.BuildError as e: notes['native build for validation failed: ' + str(e)[-200:]] = 1
    missing = ['%s: %s' % (j.entry, w) for j, c in confs for w in j.covers if not cov.get(j, {}).get(w)]
    complete = not (unconf or mism or timed or errors or notes or agg['solver_unknown'])
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(reported), assumptions=chk.get('assumptions', []) + ASSUME,
        coverage=dict(states=agg['paths'] + agg['forks'], transitions=agg['instructions'], traces_validated_against_impl=validated, samples=[dict(job=j.entry, inputs=s['inputs'][:12], obs=s['obs'][:8]) for j, c, s in samples[:4]],
            exhaustive_within_bounds=complete, bounds=[j.entry + ': ' + j.bounds for j in jobs if j.bounds], paths_completed=agg['paths'], infeasible=agg['infeasible'], assertions_evaluated=agg['asserts'], assertions_decided_by_solver=agg['asserts_solver'], assertions_constant_on_path=agg['asserts_folded'],
            solver_queries=agg['queries'], z3_queries=agg['z3_queries'], solver_seconds=round(agg['z3_time'], 2), solver_unknown=agg['solver_unknown'], decided_without_z3=dict(model=agg['model_hits'], domain=agg['domain_decided'], cache=agg['cache_hits']), concretizations=agg['concretizations'],
            functions_encoded=len(funcs), functions=sorted('%s (%s)' % (f[:140], s) for f, s in funcs.items() if s)[:400], assertion_sites=sites, reachability_witnesses={w: n for m in cov.values() for w, n in m.items()}, witnesses_missing=missing,
            incomplete=timed, inconclusive=notes, engine_errors=errors, unconfirmed_counterexamples=unconf, sample_mismatches=[str(m)[:600] for m in mism[:5]], build_seconds=round(tb, 1), jobs=per[:120], known_findings=[k for k, _ in kfout]))
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    print('%s %s: %d paths, %d instructions, %d assertions (%d by solver), %d queries (%.1f s in z3), %d/%d samples agree with the compiled code, %s, %.0f s (build %.0f)' % (prop, tier, agg['paths'], agg['instructions'], agg['asserts'], agg['asserts_solver'], agg['queries'], agg['z3_time'], validated, validated + len(mism), 'complete within bounds' if complete else 'incomplete', time.time() - t0, tb))
    for x in timed[:8]: print('  bound not exhausted: ' + x)
    for k, n in list(notes.items())[:12]: print('  inconclusive: %s (%d)' % (k, n))
    for e in errors[:4]: print('  engine error: ' + e)
    for m in missing[:10]: print('  witness not reached: ' + m)
    for u in unconf[:6]: print('  counterexample not reproduced on the compiled code (not reported): ' + json.dumps(u)[:700])
    for m in mism[:4]: print('  sample differs: ' + str(m)[:900])
    for k, w in kfout: print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, w))
    for rp, txt, v, inp in reported:
        print('  ' + txt); print('VIOLATION property=%s replay=%s' % (prop, rp or 'none'))
    if reported: return 1
    if errors and not per: return 2
    return 0
ASSUME = ['memory allocation succeeds', 'std::unordered_map iteration order is that of the engine\'s bucket policy; std::map, std::list and std::string behave as specified', 'log output has no effect on behaviour (Logger is replaced)', 'sockets, epoll, eventfd, clocks and files behave as in model/env.cpp']
