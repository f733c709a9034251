"""python check.py PROPERTY TIER [--shard k/n --out F] [--replay F]"""
import sys, os, json, time, importlib, subprocess, tempfile
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
SHARDS = {}


def main():
    a = sys.argv[1:]
    pid, tier = a[0], a[1]
    opt = dict(zip(a[2::2], a[3::2]))
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if '--replay' in opt:
        rep = json.load(open(opt['--replay']))
        ctx = run(pid, tier, seed, 0, 1, only=rep['obligation'], values=rep['values'] or {})
        for n, p, m in ctx['violations']: print('VIOLATION property=%s replay=%s\n  %s: %s' % (pid, p, n, m))
        for n, m in ctx['errors']: print('ERROR', n, m)
        sys.exit(1 if ctx['violations'] else 2 if ctx['errors'] else 0)
    if '--shard' in opt:
        k, n = map(int, opt['--shard'].split('/'))
        json.dump(run(pid, tier, seed, k, n), open(opt['--out'], 'w'))
        return
    t0 = time.time()
    src = open(os.path.join(VERIF, 'checks', pid.lower() + '.py')).read()
    n = 4
    for line in src.splitlines():
        if line.startswith('SHARDS ='): n = eval(line.split('=', 1)[1])
    if isinstance(n, dict): n = n[tier]
    with tempfile.TemporaryDirectory() as d:
        procs = []
        for k in range(n):
            out = os.path.join(d, '%d.json' % k)
            log = open(os.path.join(d, '%d.log' % k), 'w')
            procs.append((subprocess.Popen([sys.executable, __file__, pid, tier, '--shard', '%d/%d' % (k, n), '--out', out], stdout=log, stderr=subprocess.STDOUT), out, log))
        parts, dead = [], []
        for p, out, log in procs:
            try: p.wait(max(1, (800 if tier == 'quick' else 4 * 3600) - (time.time() - t0)))
            except subprocess.TimeoutExpired: p.kill(); p.wait()
            if p.returncode != 0 or not os.path.exists(out):
                dead.append(open(log.name).read()[-3000:])
            else:
                if os.environ.get('TIMES'): print(open(log.name).read())
                parts.append(json.load(open(out)))
                if parts[-1]['crash']: dead.append(parts[-1]['crash'])
    sys.exit(report(pid, tier, seed, parts, dead, time.time() - t0))


def run(pid, tier, seed, shard, shards, only=None, values=None):
    from symx import core, smt
    import numpy as np, random
    np.random.seed(seed); random.seed(seed)
    mod = importlib.import_module('checks.' + pid.lower())
    ctx = core.Ctx(pid, tier, seed, shard, shards, only, values)
    try: mod.run(ctx)
    except Exception as e:
        import traceback
        where = [t for t in traceback.extract_tb(e.__traceback__) if '/repo/' in t.filename]
        text = '%s: %s' % (type(e).__name__, str(e)[:200])
        ctx.crash = ''.join(traceback.format_exception(e))[-3000:]
        if where and 'racer' not in text and 'Concret' not in text: ctx.violation('crash', 'the code raises %s (at %s:%d)' % (text, where[-1].filename, where[-1].lineno))
    return dict(obl=ctx.obl, violations=ctx.violations, errors=ctx.errors, functions=sorted(ctx.functions), witness=ctx.witness,
                samples=ctx.samples, validated=ctx.validated, prims=ctx.prims, bounds=ctx.bounds, assumptions=sorted(ctx.assumptions),
                stats=smt.STATS, crash=getattr(ctx, 'crash', ''), wall=time.time() - ctx.t0)


def known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, msg = rest.partition(' :: ')
                out[key.replace('obligation=', '', 1).strip()] = msg.strip()
    return out


def report(pid, tier, seed, parts, dead, wall):
    errors = [e for p in parts for e in p['errors']]
    viol = [v for p in parts for v in p['violations']]
    kn = known(pid)
    new = [v for v in viol if v[0] not in kn]
    for n, path, m in viol:
        if n in kn: print('KNOWN-FINDING: property=%s %s' % (pid, kn[n]))
    for n, path, m in new[:10]:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  %s: %s' % (n, m))
    for d in dead: print('ERROR: a shard died', d)
    for n, m in errors[:10]: print('UNDECIDED %s: %s' % (n, m if os.environ.get('VERBOSE') else m.strip()[-300:]))
    st = {}
    for p in parts:
        for k, v in p['stats'].items(): st[k] = st.get(k, 0) + v
    pr = {}
    for p in parts:
        for k, v in p['prims'].items(): pr[k] = pr.get(k, 0) + v
    obl = sum(len(p['obl']) for p in parts)
    total = obl + len(viol) + len(errors)
    names = sorted(n for p in parts for n in p['obl'])
    cov = dict(explanation='bounded symbolic execution of the real functions (jaxpr / python semantics) with every obligation decided by z3',
               obligations=total, discharged=obl, queries=st.get('queries', 0), unsat=st.get('unsat', 0), sat=st.get('sat', 0), unknown=st.get('unknown', 0),
               undecided=[n for n, m in errors][:50], solver_seconds=round(st.get('seconds', 0), 3), compared_entries=st.get('entries', 0), abstracted_monomials=st.get('monomials', 0),
               encodings_validated_against_execution=sum(p['validated'] for p in parts),
               reachability_witnesses=sum(p['witness'] for p in parts),
               functions_encoded=sorted({f for p in parts for f in p['functions']})[:200],
               symbolic_primitive_applications=pr, bounds=sorted({b for p in parts for b in p['bounds']}),
               samples=[s for p in parts for s in p['samples']][:20], obligation_names=names[:150], shards=len(parts))
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov, wall_s=round(wall, 2), violations=len(new),
              assumptions=sorted({a for p in parts for a in p['assumptions']}))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d/%d obligations, %d queries (%.1fs solver), %d violations, %d undecided, %.1fs' %
          (pid, tier, obl, total, st.get('queries', 0), st.get('seconds', 0), len(new), len(errors), wall))
    if new: return 1
    if dead: return 2
    if len(errors) > max(3, total // 4): print('ERROR: %d of %d obligations undecided' % (len(errors), total)); return 2
    if obl == 0: print('ERROR: nothing was decided'); return 2
    return 0


main()
