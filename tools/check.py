#!/usr/bin/env python3
"""check.py PROP: decide one property on /repo's current working tree.

1. extract the functions under contract from /repo (extractor/vx) and let Verus discharge every obligation;
2. run the executable contracts (native/vn) on the real crate: counterexample search, and the labelled bounded
   stand-in for whatever Verus gave no verdict on;
3. report, and rewrite evidence/PROP.json.
"""
import json, os, re, subprocess, sys, time, threading, shutil, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
B = os.path.join(V, 'build')
VX = os.path.join(B, 'vx', 'release', 'vx')
DEFINITE = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
            'possible arithmetic underflow/overflow', 'possible division by zero', 'possible bit shift', 'decreases not satisfied',
            'loop ensures not satisfied', 'unreachable', 'index out of bounds', 'possible truncation', 'assert_by', 'precondition of', 'could not prove',
            'could not show invariant', 'loop invariant', 'recommendation')
UNDECIDED = ('resource limit', 'rlimit', 'canceled', 'cancelled')

def env():
    e = dict(os.environ); e['CARGO_NET_OFFLINE'] = 'true'; return e

def build_vx(log):
    r = subprocess.run(['cargo', 'build', '--release', '--offline', '--target-dir', os.path.join(B, 'vx')], cwd=os.path.join(V, 'extractor'), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: log.append('extractor build failed:\n' + r.stdout[-3000:])
    return r.returncode == 0

def build_native(log):
    e = env(); e['RUSTFLAGS'] = (e.get('RUSTFLAGS', '') + ' -Awarnings').strip()
    r = subprocess.run(['cargo', 'build', '--offline', '--target-dir', os.path.join(B, 'native')], cwd=os.path.join(V, 'native'), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: log.append('native build failed:\n' + r.stdout[-3000:])
    return r.returncode == 0

def fn_map(path):
    """line -> function key, from the markers in the generated file"""
    m, cur, res = {}, None, []
    for i, l in enumerate(open(path), 1):
        if l.startswith('//@@BEGIN '): cur = l[len('//@@BEGIN '):].strip()
        m[i] = cur
        if l.startswith('//@@END'): cur = None
    return m

def run_verus(path, extra=(), timeout=300):
    t = time.time()
    cmd = ['verus', '--triggers-mode', 'silent', '--multiple-errors', '40', '--output-json', '--time-expanded', '--error-format=json', '--num-threads', '4', '--rlimit', '60', path] + list(extra)
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return {'verified': 0, 'errors': 0, 'smt_ms': 0, 'diags': [], 'ran': False, 'wall': time.time() - t, 'note': 'timeout after %ds' % timeout, 'queries': []}
    diags = []
    for l in r.stderr.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get('level') == 'error' and not d['message'].startswith('aborting'):
            diags.append(d)
    try: o = json.loads(r.stdout)
    except Exception: o = {}
    vr = o.get('verification-results', {})
    smt = o.get('times-ms', {}).get('smt', {})
    q = []
    for m in smt.get('smt-run-module-times', []): q += [(f['function'], f.get('time-micros', 0)) for f in m.get('function-breakdown', [])]
    return {'verified': vr.get('verified', 0), 'errors': vr.get('errors', 0), 'success': bool(vr.get('success')), 'smt_ms': smt.get('total', 0), 'diags': diags,
            'ran': bool(vr) and not vr.get('encountered-vir-error', False), 'wall': time.time() - t, 'queries': q, 'rc': r.returncode}

def classify(d):
    m = d['message'].lower()
    if any(u in m for u in UNDECIDED): return 'undecided'
    if d.get('code'): return 'unsupported'
    if any(x in m for x in DEFINITE): return 'failed'
    return 'unsupported'

def key_of(k):  # marker -> function key
    return k.split(' @ ')[0] if k else None

class Unit:
    def __init__(self, prop, name, work):
        self.prop, self.name, self.work = prop, name, work
        self.assume = []
        self.failed, self.undecided, self.unsupported, self.lost = [], [], [], []
        self.vac_bad = []
        self.notes = []
        self.log = ''
        self.variant = []

    def reset(self):
        self.assume, self.failed, self.undecided, self.unsupported, self.lost, self.vac_bad, self.notes = [], [], [], [], [], [], []

    def vx(self, out, vac=False):
        cmd = [VX, '--repo', REPO, '--prop', self.prop]
        for a in self.assume: cmd += ['--assume', a]
        cmd += self.variant
        if vac: cmd.append('--vacuity')
        cmd += [os.path.join(V, 'specs', self.name + '.vrs'), out]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            self.log += 'vx failed: ' + r.stdout[-2000:]
            return None
        return json.load(open(out[:-3] + '.json'))

    def run(self):
        """Proves the unit. Where that fails, the same source is presented to the verifier with early exits turned
        into else branches everywhere (or nowhere): these extractions are equivalent, so one accepted proof is enough."""
        self.run_once()
        if self.ok and not self.notes and not self.vac_bad: return
        keep = dict(self.__dict__)
        out = os.path.join(self.work, self.name + '.rs')
        probe = os.path.join(self.work, self.name + '_probe.rs')
        tried = []
        for variant in ([], ['--norm-all'], ['--norm-none']):
            self.variant = variant
            self.reset()
            if self.vx(probe) is None: continue
            text = open(probe).read()
            if text in tried: continue
            tried.append(text)
            if not variant: continue
            self.run_once()
            if self.ok and not self.notes and not self.vac_bad: return
        self.__dict__.clear(); self.__dict__.update(keep)
        self.vx(out)

    def run_once(self):
        out = os.path.join(self.work, self.name + '.rs')
        vout = os.path.join(self.work, self.name + '_vac.rs')
        for attempt in range(5):
            rep = self.vx(out)
            if rep is None: self.ok = False; self.unsupported.append((None, 'extraction failed: ' + self.log[-500:])); self.rep = {'functions': [], 'edits': {}, 'lost': [], 'inlined': [], 'items': []}; self.res = {'verified': 0, 'errors': 0, 'smt_ms': 0, 'queries': [], 'wall': 0, 'diags': []}; return
            vrep = None
            th = None
            if attempt == 0 or True:
                vrep = self.vx(vout, vac=True)
                box = {}
                th = threading.Thread(target=lambda: box.update(r=run_verus(vout)))
                th.start()
            res = run_verus(out)
            th.join()
            fm = fn_map(out)
            self.rep, self.res = rep, res
            self.lost = rep['lost']
            self.failed, self.undecided, self.unsupported = [], [], []
            bad = set()
            for d in res['diags']:
                sp = [s for s in d['spans'] if s['file_name'].endswith(os.path.basename(out))] or d['spans']
                prim = [s for s in sp if s['is_primary']] or sp
                keys = []
                for s in sp + prim:
                    k = key_of(fm.get(s['line_start']))
                    if k and k not in keys: keys.append(k)
                # the failing function: the one containing the non-contract span if any
                key = None
                for s in sp:
                    if not s['is_primary'] or len(sp) == 1:
                        k = key_of(fm.get(s['line_start']))
                        if k: key = k
                key = key or (keys[0] if keys else None)
                kind = classify(d)
                # rendered spans: which contract clause failed
                clause = '; '.join(t['text'].strip() for s in sp for t in s['text'][:1])[:400]
                item = (key, d['message'], clause, d.get('rendered', '')[:2500], keys)
                if kind == 'failed': self.failed.append(item)
                elif kind == 'undecided': self.undecided.append(item)
                else:
                    self.unsupported.append(item)
                    for k in keys: bad.add(k)
            if not res['ran'] and not res['diags']:
                self.unsupported.append((None, 'verifier gave no result: ' + str(res.get('note', res.get('rc'))), '', '', []))
            fnkeys = {f['key'] for f in rep['functions']}
            newbad = [k for k in bad if k in fnkeys and k not in self.assume]
            if self.unsupported and newbad and attempt < 4:
                for k in newbad: self.notes.append('%s: not accepted by the verifier in its present form (%s); its contract is assumed in this run and it is checked only by the bounded native contract' % (k, [u[1] for u in self.unsupported if k in u[4]][0][:200]))
                self.assume += newbad
                continue
            # vacuity: every marked point must be reported as failing
            self.vac_total = 0
            if vrep is not None and res['ran']:
                vr = box.get('r')
                seen = set()
                vt = open(vout).read().splitlines()
                for d in vr['diags']:
                    for s in d['spans']:
                        if s['file_name'].endswith('_vac.rs'):
                            m = re.search(r'/\*VAC(\d+)\*/', vt[s['line_start'] - 1])
                            if m: seen.add(int(m.group(1)))
                self.vac_total = len(vrep['vacuity_points'])
                if vr['ran']:
                    self.vac_bad = [p for p in vrep['vacuity_points'] if p['id'] not in seen]
                else: self.notes.append('vacuity run gave no result')
            break
        self.ok = res.get('success', False) and not self.lost and not self.unsupported and not self.undecided and not self.failed

def main():
    prop = sys.argv[1]
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    cfg = json.load(open(os.path.join(V, 'tools', 'config.json')))[prop]
    work = os.path.join(B, 'work', prop)
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    log = []
    nat = {'built': False, 'ran': False, 'data': None, 'rc': None}
    def native():
        if not cfg.get('native', True): return
        if not build_native(log): return
        nat['built'] = True
        out = os.path.join(work, 'native.json')
        if os.path.exists(out): os.remove(out)
        cases = cfg.get('cases', {}).get(tier, 20000 if tier == 'quick' else 2000000)
        secs = cfg.get('secs', {}).get(tier, 15 if tier == 'quick' else 300)
        exe = os.path.join(work, 'vn')
        # copied by another process: a descriptor of ours open for writing could leak into a concurrent fork
        subprocess.run(['cp', '-p', '-f', '--remove-destination', os.path.join(B, 'native', 'debug', 'vn'), exe], check=True)
        try:
            r = subprocess.run([exe, prop, '--seed', str(seed), '--cases', str(cases), '--secs', str(secs), '--out', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs * 3 + 200, cwd=work)
            nat['rc'] = r.returncode
            if os.path.exists(out): nat['data'] = json.load(open(out)); nat['ran'] = True
            else: nat['crash'] = 'native contracts ended with status %s\n%s' % (r.returncode, r.stdout[-2000:])
        except subprocess.TimeoutExpired:
            nat['crash'] = 'native contracts did not finish within %ds' % (secs * 3 + 200)
    nt = threading.Thread(target=native); nt.start()
    kn = {'results': {}, 'log': ''}
    def kani():
        if not cfg.get('kani'): return
        t1 = time.time()
        cmd = ['cargo', 'kani', '--target-dir', os.path.join(work, 'kani')]
        for h in cfg['kani']: cmd += ['--harness', h]
        try:
            r = subprocess.run(cmd, cwd=os.path.join(V, 'kani'), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=500)
            kn['log'] = r.stdout
        except subprocess.TimeoutExpired as x:
            kn['log'] = 'timeout'
        cur = None
        for l in kn['log'].splitlines():
            m = re.match(r'(?:Thread \d+: )?Checking harness (\S+?)\.\.\.', l)
            if m: cur = m.group(1)
            if 'VERIFICATION:- SUCCESSFUL' in l and cur: kn['results'][cur] = 'ok'
            if 'VERIFICATION:- FAILED' in l and cur: kn['results'][cur] = 'failed'
        kn['secs'] = round(time.time() - t1, 1)
        # a failed unwinding assertion or an unsupported construct is no verdict about the property
        for h in cfg['kani']:
            full = [k for k in kn['results'] if k.endswith(h)]
            if not full: kn['results'][h] = 'no verdict'
            elif kn['results'][full[0]] == 'failed' and re.search(r'unwinding assertion|unsupported|CBMC failed', kn['log']): kn['results'][full[0]] = 'no verdict'
    kt = threading.Thread(target=kani); kt.start()
    units = []
    if cfg.get('units'):
        if build_vx(log):
            units = [Unit(prop, u, work) for u in cfg['units']]
            ths = [threading.Thread(target=u.run) for u in units]
            for t in ths: t.start()
            for t in ths: t.join()
    nt.join()
    kt.join()
    known = load_known(prop)
    # ---- verdict
    out_lines, viol = [], []
    known_hit = []
    if nat['data']:
        for f in nat['data']['failures']:
            k = [x for x in known if x['contract'] == f['contract'] and re.search(x['match'], f['message'])]
            if k: known_hit.append((k[0], f))
            else: viol.append(('native', f))
    elif nat.get('crash'):
        viol.append(('crash', {'contract': 'all', 'message': nat['crash'], 'case': [], 'seed': seed, 'index': -1}))
    proof_fail = []
    for u in units:
        for it in u.failed:
            lost_here = [l for l in u.lost if it[0] and l.startswith(it[0] + ':')]
            if lost_here or any(it[0] == x[0] for x in u.unsupported): u.undecided.append(it); continue
            proof_fail.append((u, it))
    kfail = [h for h, r in kn['results'].items() if r == 'failed']
    rdir = os.path.join(V, 'build', 'replay'); os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + '.txt')
    status = 0
    if viol:
        status = 1
        with open(rpath, 'w') as fh:
            fh.write('property %s is violated by the real code in /repo\n' % prop)
            for kind, f in viol:
                fh.write('\nexecutable contract: %s\nfailure: %s\ninput:\n' % (f['contract'], f['message']))
                for l in f['case']: fh.write('  %s\n' % l)
                if f['index'] >= 0: fh.write('replay: cd /verif/native && cargo run --offline --target-dir ../build/native -- %s --replay %s:%s:%s\n' % (prop, f['contract'], f['seed'], f['index']))
            for u, it in proof_fail: fh.write('\nfailed obligation in %s (unit %s): %s\n  %s\n%s\n' % (it[0], u.name, it[1], it[2], it[3]))
            for h in kfail: fh.write('\nfailed Kani contract: %s\n' % h)
        for kind, f in viol: print('%s: %s fails: %s' % (prop, f['contract'], f['message'][:300]))
        print('VIOLATION property=%s replay=%s' % (prop, rpath))
    elif proof_fail or kfail:
        status = 1
        with open(rpath, 'w') as fh:
            fh.write('property %s: proof obligations that the verifier discharges on the original code fail on /repo\n' % prop)
            for u, it in proof_fail: fh.write('\nfailed obligation in %s (unit %s): %s\n  clause: %s\n%s\n' % (it[0], u.name, it[1], it[2], it[3]))
        if kfail:
            with open(rpath, 'a') as fh: fh.write('\nfailed Kani contracts: %s\n%s\n' % (kfail, kn['log'][-6000:]))
            for h in kfail: print('%s: Kani contract fails: %s' % (prop, h))
        for u, it in proof_fail: print('%s: obligation fails in %s: %s: %s' % (prop, it[0], it[1], it[2][:200]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rpath))
    degraded = []
    for u in units:
        degraded += ['lost anchor: ' + l for l in u.lost]
        degraded += ['no verdict: %s: %s' % (x[0], x[1][:200]) for x in u.unsupported + u.undecided]
        degraded += u.notes
        degraded += ['contract may be vacuous at %s (%s)' % (p['fn'], p['what']) for p in u.vac_bad]
    degraded += ['Kani gave no verdict on ' + h for h, r in kn['results'].items() if r == 'no verdict']
    if cfg.get('units') and not units: degraded.append('extractor could not be built')
    proved = bool(units) and all(u.ok and not u.vac_bad and not u.assume for u in units) and all(r == 'ok' for r in kn['results'].values())
    if status == 0 and not proved and not (nat['ran']):
        print('%s: no verdict: %s' % (prop, '; '.join(degraded + log)[:3000])); status = 3
    if status == 0 and any(u.vac_bad for u in units) and os.environ.get('VX_STRICT'):
        print('vacuous: %s' % [p for u in units for p in u.vac_bad]); status = 3
    for k, f in known_hit: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    # ---- evidence
    ev = evidence(prop, cfg, tier, seed, units, nat, proved, degraded, len(viol) or (len(proof_fail) + len(kfail)), time.time() - t0, log)
    if cfg.get('kani'): ev['coverage']['kani_contracts'] = {'harnesses': kn['results'], 'wall_s': kn.get('secs'), 'scope': 'loop-free functions, every input bit pattern (complete, no unwinding bound)'}
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    if status == 0:
        o = sum(u.res['verified'] + u.res['errors'] for u in units)
        print('%s: held; %s; obligations %d, discharged %d; native evaluations %d; %.1fs' % (prop, 'proved' if proved else ('NOT PROVED in this run, bounded evidence only: ' + '; '.join(degraded)[:600] if units else 'bounded'), o, sum(u.res['verified'] for u in units), (nat['data'] or {}).get('evaluations', 0), time.time() - t0))
    elif log: print('\n'.join(log)[-3000:])
    sys.exit(status)

def load_known(prop):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p): return []
    return [x for x in json.load(open(p)).get('known', []) if x['property'] == prop]

def evidence(prop, cfg, tier, seed, units, nat, proved, degraded, nviol, wall, log):
    nd = nat['data'] or {}
    fns, assumed, edits, inl = [], [], {}, []
    for u in units:
        for f in u.rep['functions']:
            if f.get('assumed') or f['key'] in u.assume: assumed.append('%s (%s:%s)' % (f['key'], f['file'], f['line']))
            elif not f.get('decl'): fns.append('%s (%s:%s)' % (f['key'], f['file'], f['line']))
        for k, v in u.rep['edits'].items(): edits[k] = edits.get(k, 0) + v
        inl += u.rep['inlined']
    trusted = []
    for u in units: trusted += scan_trusted(os.path.join(u.work, u.name + '.rs'))
    cov = {
        'obligations': sum(u.res['verified'] + u.res['errors'] for u in units),
        'discharged': sum(u.res['verified'] for u in units),
        'checker_cmd': 'verus ' + ' '.join('build/work/%s/%s.rs' % (prop, u.name) for u in units) if units else 'none',
        'trusted_base': sorted(set(trusted)) + cfg.get('trust', []),
        'back_end': 'Verus 0.2026.09.13 with Z3' if units else 'none',
        'solver_ms': sum(u.res['smt_ms'] for u in units),
        'functions_under_contract': sorted(set(fns)),
        'functions_assumed': sorted(set(assumed)),
        'vacuity_points_checked': sum(getattr(u, 'vac_total', 0) for u in units),
        'vacuity_points_suspicious': [p for u in units for p in u.vac_bad],
        'extraction_rewrites': edits,
        'helpers_inlined': inl,
        'proved_in_this_run': proved,
        'undecided_in_this_run': degraded,
        'evaluations': nd.get('evaluations', 0),
        'distinct_nontrivial': nd.get('distinct_nontrivial', 0),
        'rule': 'bounded native contracts on the real crate: (seed, index)-derived cases; a case is non-trivial unless it marks itself trivial; distinct by the hash of its input',
        'native_contracts': nd.get('contracts', {}),
        'samples': nd.get('samples', []) or ['none'],
    }
    if log: cov['build_log'] = '\n'.join(log)[-1500:]
    level = cfg['level']
    if level == 'proof' and not proved: level = 'exploration'
    return {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': cfg.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': nviol}

def scan_trusted(path):
    """every assumption in the verified text: external_body, assume_specification, uninterp, axiom, assume, admit"""
    res = []
    try: lines = open(path).read().splitlines()
    except OSError: return res
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('//'): continue
        if 'external_body' in s:
            for j in range(i, min(i + 6, len(lines))):
                m = re.search(r'\b(fn|struct|enum)\s+(\w+)', lines[j])
                if m: res.append('assumed (external_body) %s %s' % (m.group(1), m.group(2))); break
        m = re.search(r'assume_specification[^\[]*\[\s*([^\]]+)\]', s)
        if m: res.append('assumed specification of std: ' + m.group(1).strip())
        m = re.search(r'axiom\s+fn\s+(\w+)', s)
        if m: res.append('axiom ' + m.group(1))
        m = re.search(r'uninterp\s+spec\s+fn\s+(\w+)', s)
        if m: res.append('uninterpreted ' + m.group(1))
        if re.search(r'\bassume\s*\(', s): res.append('assume: ' + s[:120])
        if re.search(r'\badmit\s*\(', s): res.append('admit: ' + s[:120])
        if 'exec_allows_no_decreases_clause' in s: res.append('termination not proved (exec_allows_no_decreases_clause)')
    return res

if __name__ == '__main__': main()
