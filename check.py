#!/usr/bin/env python3
"""check.py PROP   — decides one property of /repo's current working tree (VERIF_TIER, VERIF_SEED from the environment)

1. vx extracts the functions the property depends on from /repo/src and splices in the contracts (contracts/*.vc).
2. Verus discharges the obligations, function by function.                       all accepted -> the property holds
3. A failed obligation is replayed: the concrete oracle searches for a failing input on the real crate.
4. Functions Verus cannot process in their current form (lost anchors, unsupported constructs, resource limits) are
   undecided: the concrete search stands in for them, labelled bounded.
"""
import json, os, re, subprocess, sys, time, hashlib, glob, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
sys.path.insert(0, V + '/tools')
from props import PROPS
from literals import literals

ENV = dict(os.environ, CARGO_NET_OFFLINE='true')
ENV.pop('RUSTFLAGS', None)

def sh(cmd, timeout=None, cwd=V, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, e = p.communicate()
        return -9, o, e

def build_vx():
    b = V + '/vx/target/release/vx'
    r, o, e = sh(['cargo', 'build', '--release', '--offline', '--quiet', '--manifest-path', V + '/vx/Cargo.toml', '--target-dir', V + '/vx/target'], 600)
    if r: raise Exception('building vx: ' + e[-2000:])
    return b

def src_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + '/src/**/*.rs', recursive=True)) + [REPO + '/Cargo.toml']:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()

def build_replay():
    """builds the oracle against /repo's current source; cargo goes by file times, so a changed source hash forces it"""
    t = V + '/target/replay'
    os.makedirs(t, exist_ok=True)
    st = t + '/source.hash'
    h = src_hash()
    if not os.path.exists(st) or open(st).read() != h:
        for d in glob.glob(t + '/release/.fingerprint/concordance-*'): shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(st): os.remove(st)
    r, o, e = sh(['cargo', 'build', '--release', '--offline', '--quiet', '--manifest-path', V + '/replay/Cargo.toml', '--target-dir', t], 800)
    if r: return None, e[-3000:]
    open(st, 'w').write(h)
    return t + '/release/replay', ''

# ------------------------------------------------------------------------------------------------ verification

class Verify:
    def __init__(s, prop, work):
        s.prop, s.work = prop, work
        s.mods = PROPS[prop]['modules']
        s.targets = re.compile('|'.join('(?:%s)' % t for t in PROPS[prop]['targets']))
        s.vx = V + '/vx/target/release/vx'
        s.external = {}        # key -> why it could not be processed
        s.runs = []
        s.smt_ms = 0

    def gen(s, name, extra=()):
        out, mp = '%s/%s.rs' % (s.work, name), '%s/%s.json' % (s.work, name)
        r, o, e = sh([s.vx, 'gen', '--src', REPO + '/src', '--contracts', V + '/contracts', '--out', out, '--map', mp, '--baseline', V + '/baseline.json',
                      '--modules', ','.join(s.mods), '--external', ';'.join(s.external)] + list(extra), 120)
        if r: return None, None, e[-2000:]
        return out, json.load(open(mp)), ''

    def verus(s, path, args=(), limit=600):
        cmd = ['verus', '--edition', '2021', '--crate-type=lib', os.path.basename(path), '--output-json', '--time-expanded', '--multiple-errors', '3',
               '--num-threads', '8'] + list(args) + ['--', '--error-format=json']
        t = time.time()
        r, o, e = sh(cmd, limit, cwd=os.path.dirname(path))
        s.runs.append({'cmd': ' '.join(cmd), 'seconds': round(time.time() - t, 1)})
        res = {'timeout': r == -9, 'diags': [], 'json': None, 'raw': e[-6000:]}
        for l in e.splitlines():
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') in ('error', 'error: internal compiler error'): res['diags'].append(d)
        i = o.find('{')
        if i >= 0:
            try: res['json'] = json.loads(o[i:])
            except ValueError: pass
        return res

    def locate(s, path, marks):
        """line -> name of the function whose text the line lies in (real functions by key, lemmas by name)"""
        lines = open(path).read().split('\n')
        at = {}
        keyat = {int(l): k for l, k in marks}
        cur, mod = None, ''
        owner = [None] * (len(lines) + 2)
        fnre = re.compile(r'^\s*(?:pub\s+)?(?:broadcast\s+)?(?:(open|closed|uninterp)\s+)?(?:(proof|spec|axiom|exec)\s+)?fn\s+(\w+)')
        start = None
        for n, l in enumerate(lines, 1):
            m = re.match(r'^pub mod (\w+) \{', l)
            if m: mod, cur = m.group(1), None
            m = fnre.match(l)
            if m:
                cur = '%s::%s' % (mod, m.group(3))
                start = n
            if n in keyat:
                cur = keyat[n]
                for k in range(start or n, n): owner[k] = cur
            owner[n] = cur
        return owner

    def attribute(s, d, owner):
        """function a diagnostic belongs to: prefer the span inside the failing body over the one at the contract"""
        sp = d.get('spans', [])
        labelled = [x for x in sp if (x.get('label') or '').startswith(('at the end of the function body', 'at this exit', 'at this call-site', 'at this loop exit'))]
        order = labelled + [x for x in sp if x.get('is_primary')] + sp
        for x in order:
            if x['file_name'].endswith('.rs') and '/vstd' not in x['file_name'] and x['line_start'] < len(owner) and owner[x['line_start']]: return owner[x['line_start']], x['line_start']
        return None, None

    def run(s):
        """-> dict(ok, failed {key: [messages]}, undecided {key: why}, verified, fns, smt_ms)"""
        out = {'failed': {}, 'undecided': {}, 'fatal': None, 'verified': 0, 'errors': 0, 'fns': []}
        extra = PROPS[s.prop].get('verus_args', [])
        for attempt in range(14):
            path, mp, err = s.gen('verify')
            if path is None:
                out['fatal'] = 'extraction failed: ' + err
                return out
            owner = s.locate(path, mp['marks'])
            res = s.verus(path, extra)
            out['fns'] = mp['fns']
            out['inlined'] = mp.get('inlined', [])
            j = res['json']
            vr = (j or {}).get('verification-results', {})
            if res['timeout'] or j is None and not res['diags']:
                out['fatal'] = 'verus gave no answer' + (' in time' if res['timeout'] else ': ' + res['raw'][-800:])
                return out
            compiled = vr.get('verified', 0) + vr.get('errors', 0) > 0 and not vr.get('encountered-vir-error')
            if compiled: break
            bad = {}
            loose = []
            for d in res['diags']:
                if d['message'].startswith('aborting due to'): continue
                k, ln = s.attribute(d, owner)
                known = {f['key'] for f in mp['fns']}
                if k and k in known and k not in s.external: bad.setdefault(k, []).append(d['message'])
                else: loose.append(d['message'])
            if not bad:
                out['fatal'] = 'not processable: ' + '; '.join(loose)[:800]
                return out
            for k, m in bad.items(): s.external[k] = 'not processable: ' + '; '.join(m)[:400]
        else:
            out['fatal'] = 'not processable after 14 attempts'
            return out
        info = {f['key']: f for f in mp['fns']}
        lost = {p['key']: p['lost'] for p in mp['problems']}
        for d in res['diags']:
            if d['message'].startswith('aborting due to'): continue
            k, ln = s.attribute(d, owner)
            msg = d['message']
            det = '; '.join('%s:%s %s' % (x.get('label') or ('here' if x['is_primary'] else ''), x['line_start'], (x['text'][0]['text'].strip() if x['text'] else '')) for x in d.get('spans', []))
            full = (msg + ' [' + det + ']')[:900]
            if 'rlimit' in msg.lower() or 'resource limit' in msg.lower() or 'timed out' in msg.lower(): out['undecided'].setdefault(k or '?', []).append(full)
            else: out['failed'].setdefault(k or '?', []).append(full)
        out['verified'], out['errors'] = vr.get('verified', 0), vr.get('errors', 0)
        names, ms = [], 0
        for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                names.append({'function': f['function'].replace('verify::', ''), 'mode': f.get('mode:'), 'ok': f['success'], 'ms': round(f.get('time-micros', 0) / 1000, 1)})
                ms += f.get('time-micros', 0) / 1000
        out['obl'], out['smt_ms'] = names, round(ms)
        out['external'], out['lost'], out['info'] = dict(s.external), lost, info
        # what the proof was written about must still be there: every function of the original source, and the derived Hash it trusts
        try: base = json.load(open(V + '/baseline.json'))
        except Exception: base = {}
        here = {f['key'] for f in mp['fns']}
        for k in base:
            if k.split('::')[0] in s.mods and k not in here: out['undecided'].setdefault(k, []).append('the function is no longer there')
        for k, l in lost.items():
            if l in (['function'], ['derived implementation']): out['undecided'].setdefault(k, []).append('no longer a ' + l[0] if l != ['function'] else 'the function under contract is no longer there')
        for k in base.get('__derived__', []):
            if k.split('::')[0] in s.mods and '::Hash for' in k and k not in mp['derived']: out['undecided'].setdefault(k, []).append('no longer derived')
        for k, why in s.external.items(): out['undecided'].setdefault(k, []).append(why)
        return out

    def vacuity(s):
        """every function under contract, given a body that asserts false first, must fail; a function that does not has a contradictory precondition"""
        path, mp, err = s.gen('probe', ['--probe'])
        if path is None: return None, []
        owner = s.locate(path, mp['marks'])
        res = s.verus(path, PROPS[s.prop].get('verus_args', []))
        hit = set()
        for d in res['diags']:
            k, _ = s.attribute(d, owner)
            if k: hit.add(k)
        want = [f['key'] for f in mp['fns'] if f.get('has_body') and not f.get('external') and not f.get('dropped')]
        return len(want), [k for k in want if k not in hit]

def trusted(work):
    """mechanical scan for everything the verified text assumes"""
    t = open(work + '/verify.rs').read().split('\n')
    res = []
    for i, l in enumerate(t):
        if 'assume_specification' in l: res.append('assumed contract on the standard library: ' + re.sub(r'\s+', ' ', l.strip())[:160])
        elif re.search(r'\baxiom fn\b', l): res.append('axiom: ' + l.strip()[:120])
        elif 'external_body' in l and 'verifier' in l:
            nxt = ' '.join(x.strip() for x in t[i + 1:i + 3])
            res.append('body not verified: ' + nxt[:140])
        elif re.search(r'\b(assume|admit)\s*\(', l) and not l.strip().startswith('//'): res.append('assumption: ' + l.strip()[:140])
        elif 'exec_allows_no_decreases_clause' in l: res.append('termination not checked: ' + ' '.join(x.strip() for x in t[i + 1:i + 2])[:120])
    return sorted(set(res))

def search(prop, exe, n_enum, n_rand, secs, hints=''):
    r, o, e = sh([exe, 'search', prop, str(SEED), str(n_enum), str(n_rand), str(secs)], secs + 120, env=dict(ENV, REPLAY_HINTS=hints))
    try: return json.loads(o)
    except ValueError: pass
    # the process died (stack overflow, abort): find the case by tracing
    r, o2, e2 = sh([exe, 'search', prop, str(SEED), str(n_enum), str(n_rand), str(secs)], secs + 120, env=dict(ENV, REPLAY_TRACE='1', REPLAY_HINTS=hints))
    for l in reversed(e2.splitlines()[-64:]):
        m = re.match(r'CASE (\w) (\d+)', l)
        if m:
            rr, oo, ee = sh([exe, 'case', prop, m.group(1), m.group(2)], 60, env=dict(ENV, REPLAY_HINTS=hints))
            if rr not in (0,): return {'evaluations': 0, 'nontrivial': 0, 'distinct': 0, 'seconds': 0, 'samples': [], 'fail': {'mode': m.group(1), 'id': int(m.group(2)), 'case': (oo or 'process aborted').strip()[:2000], 'what': 'the process ended abnormally (%s) %s' % (rr, ee[-300:])}}
    return {'evaluations': 0, 'nontrivial': 0, 'distinct': 0, 'seconds': 0, 'samples': [], 'error': (o + e)[-500:]}

def source_hints():
    """literals the current source has more of than the baseline source: values and sizes worth trying"""
    try: base = json.load(open(V + '/baseline.json'))['__literals__']
    except Exception: return ''
    new = set()
    for f in glob.glob(REPO + '/src/**/*.rs', recursive=True):
        b = base.get(f[len(REPO + '/src/'):], {})
        new |= {k for k, n in literals(open(f, errors='replace').read()).items() if n > b.get(k, 0)}
    return ','.join(sorted(new, key=int)[:24])

def known_findings(prop):
    res = []
    for l in open(V + '/KNOWN_FINDINGS'):
        m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l.strip())
        if m and m.group(1) == prop: res.append((m.group(2), m.group(3)))
    return res

def main():
    prop = sys.argv[1]
    if prop == '--setup':
        build_vx()
        exe, err = build_replay()
        if exe is None: sys.exit('building the oracle: ' + err)
        print('built', exe)
        return
    t0 = time.time()
    P = PROPS[prop]
    work = '%s/target/check/%s-%d' % (V, prop, os.getpid())
    os.makedirs(work, exist_ok=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    build_vx()
    v = Verify(prop, work)
    bounded = P.get('bounded', [])
    r = v.run()
    T = v.targets
    in_scope = lambda k: k == '?' or T.search(k)
    failed = {k: m for k, m in r['failed'].items() if in_scope(k)}
    undecided = {k: m for k, m in r['undecided'].items() if in_scope(k)}
    # contracts the property's own functions rely on, decided under another property: here they only call for a search
    for k, m in list(r['failed'].items()) + list(r['undecided'].items()):
        if not in_scope(k): undecided[k] = ['supporting function: ' + m[0]]
    if r['fatal']: undecided['(whole extraction)'] = [r['fatal']]
    # failures of functions whose proof hints no longer have a place, or whose control structure changed, are undecided
    hard = {}
    for k, m in failed.items():
        f = r.get('info', {}).get(k)
        callee_unknown = [x['key'] for x in r['fns'] if not x.get('known') and not x.get('dropped') and x.get('has_body')
                          and not re.search(r'::(Clone|PartialEq|Eq|PartialOrd|Ord|Debug|Hash) for |::vx_copy$', x['key'])]
        if f is None: undecided[k] = ['lemma no longer accepted: ' + m[0]]
        elif k in r['lost']: undecided[k] = ['anchors lost %s: %s' % (r['lost'][k], m[0])]
        elif not f.get('known'): undecided[k] = ['derived for a type that has changed, or new: ' + m[0]]
        elif not f.get('same_shape'): undecided[k] = ['function restructured: ' + m[0]]
        elif callee_unknown: undecided[k] = ['new functions without contract %s: %s' % (callee_unknown[:3], m[0])]
        else: hard[k] = m
    vac = (None, [])
    if not r['fatal'] and not failed: vac = v.vacuity() if (TIER == 'thorough' or P.get('probe', True)) else (None, [])
    exe, berr = build_replay()
    clean = not failed and not undecided
    if TIER == 'thorough': budget = (400000, 100000000, 120 if clean else 400)
    else: budget = (20000, 60000, 12) if clean else (60000, 100000000, 150)
    if exe is None: s = {'evaluations': 0, 'nontrivial': 0, 'distinct': 0, 'seconds': 0, 'samples': [], 'error': 'the oracle does not build against this tree: ' + berr}
    else: s = search(prop, exe, *budget, hints=source_hints())
    viol, known = None, []
    if s.get('fail'):
        f = s['fail']
        for pat, text in known_findings(prop):
            if re.search(pat, f['what'] + ' ' + f['case']): known.append(text)
        if not known: viol = 'input'
    elif hard: viol = 'obligation'
    if not r['fatal'] and r['verified'] == 0: undecided['(vacuity)'] = ['no obligations were generated']
    if vac[1]: undecided['(vacuity)'] = ['contradictory preconditions: ' + ', '.join(vac[1])]

    rp = '%s/evidence/%s.replay.txt' % (V, prop)
    if viol:
        with open(rp, 'w') as fh:
            fh.write('property %s: %s\n\n' % (prop, P['title']))
            if viol == 'input':
                fh.write('failing input (replayed on the real crate):\n  %s\n  %s\n\nreproduce: VERIF_SEED=%d %s case %s %s %s\n' % (s['fail']['case'], s['fail']['what'], SEED, exe, prop, s['fail']['mode'], s['fail']['id']))
                fh.write('environment: REPLAY_HINTS=%s\n' % source_hints())
            fh.write('\nfailed obligations:\n')
            for k, m in list(failed.items()): fh.write('  %s\n' % k + ''.join('      %s\n' % x for x in m))
            if not failed: fh.write('  (none: the failing input comes from the concrete oracle; undecided: %s)\n' % json.dumps(undecided))
            if undecided: fh.write('\nundecided:\n' + ''.join('  %s: %s\n' % (k, m[0]) for k, m in undecided.items()))
            fh.write('\nverifier: %s\n' % (v.runs[0]['cmd'] if v.runs else '-'))

    obl = [o for o in r.get('obl', [])]
    n_obl = r['verified'] + r['errors']
    # an implementation of a trait method answers for the contract of the method
    by_trait = {re.search(r'::trait (.*)$', f['key']).group(1) for f in r['fns'] if f.get('contract') and '::trait ' in f['key']}
    def contracted(f):
        m = re.search(r'^\w+::(\w+) for .*::(\w+)(?:#\d+)?$', f['key'])
        return f.get('contract') or m and '%s::%s' % m.groups() in by_trait
    fns_contract = [f['key'] for f in r['fns'] if contracted(f) and not f.get('external') and T.search(f['key'])]
    cov = {
        'obligations': n_obl, 'discharged': r['verified'],
        'checker_cmd': v.runs[0]['cmd'] if v.runs else '',
        'trusted_base': trusted(work) if os.path.exists(work + '/verify.rs') else [],
        'functions_under_contract': fns_contract,
        'functions_verified_total': len([f for f in r['fns'] if f.get('has_body') and not f.get('external') and not f.get('dropped')]),
        'functions_without_contract_in_scope': [f['key'] for f in r['fns'] if not contracted(f) and not f.get('dropped') and T.search(f['key'])],
        'functions_written_out_at_their_calls': r.get('inlined', []),
        'functions_dropped_by_extraction': [f['key'] for f in r['fns'] if f.get('dropped')],
        'back_end': 'Verus 0.2026.09.13 (Z3)', 'solver_ms': r.get('smt_ms', 0),
        'vacuity_probe': {'functions_probed': vac[0], 'contradictory': vac[1]},
        'failed_obligations': failed, 'undecided': undecided,
        'bounded_stand_ins': bounded + ([{'function': k, 'reason': m[0], 'bound': 'concrete search below'} for k, m in undecided.items()]),
        'oracle_search': {'evaluations': s.get('evaluations'), 'distinct_nontrivial': s.get('distinct'), 'seconds': s.get('seconds'), 'samples': s.get('samples', [])[:2], 'error': s.get('error'),
                          'purpose': 'checks the assumptions the proof rests on (trusted contracts, extraction) and the bounded functions; not counted as proof'},
        'wall_runs': v.runs,
    }
    if P['level'] != 'proof':
        cov.update({'evaluations': s.get('evaluations', 0), 'distinct_nontrivial': s.get('distinct', 0), 'rule': 'cases are built from enumerated and random choices by the generators in replay/src; non-trivial when the property is exercised (see props.rs)', 'samples': s.get('samples', []),
                    'explanation': P.get('note', '')})
    ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': P['level'], 'coverage': cov,
          'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': 1 if viol else 0}
    with open('%s/evidence/%s.json' % (V, prop), 'w') as fh: json.dump(ev, fh, indent=1)
    if not os.environ.get('VERIF_KEEP'): shutil.rmtree(work, ignore_errors=True)

    print('%s: %d of %d obligations discharged (%d functions under contract), %d ms solver; oracle: %s cases' % (prop, r['verified'], n_obl, len(fns_contract), r.get('smt_ms', 0), s.get('evaluations')))
    for k, m in failed.items(): print('  failed obligation: %s: %s' % (k, m[0][:300]))
    for k, m in undecided.items(): print('  undecided (bounded stand-in): %s: %s' % (k, m[0][:300]))
    if s.get('error'): print('  oracle: ' + s['error'])
    for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if viol:
        if viol == 'input':
            print('  failing input: %s\n  %s' % (s['fail']['case'][:1500], s['fail']['what'][:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        else: print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__": main()
