"""Check framework: runs the units of a check in parallel, writes evidence, prints the verdict."""
import json, os, sys, time, signal, traceback, multiprocessing as mp
import ir, vg, probe
from probe import Rep

VERIF = ir.VERIF
EV = os.path.join(VERIF, 'evidence')


class Timeout(Exception): pass


def _alarm(*a): raise Timeout()


def run_unit(u):
    name, fn, args, limit = u
    rep = Rep(name)
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        fn(rep, *args)
    except Timeout: rep.undecided('unit exceeded %d s' % limit)
    except vg.Undecided as e: rep.undecided(e)
    except probe.Fault as e: rep.check(False, 'memory', str(e), e.loc)
    except probe.Outcome as e:
        if e.row.outcome == 'throw': rep.check(False, 'valid input is accepted', 'an exception is thrown on valid input: %s' % e, e.row.loc)
        else: rep.undecided('unexpected outcome %s (%s)' % (e, probe.fmtloc(e.row.loc)))
    except ir.BuildError as e: rep.undecided('does not compile: ' + e.first())
    except Exception as e:
        rep.undecided('analysis error: %s' % ''.join(traceback.format_exception_only(type(e), e)).strip())
        if os.environ.get('VERIF_TRACE'): traceback.print_exc()
    finally:
        signal.alarm(0)
    rep.wall = time.time() - t
    return rep


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('{'): continue
            d = json.loads(l)
            if d['property'] == pid: out.append(d)
    return out


def main(pid, units, tier, seed, meta):
    ir.ensure_tools()
    ir.scratch()
    t0 = time.time()
    workers = min(8, os.cpu_count() or 1, max(1, len(units)))
    ctx = mp.get_context('fork')
    reps = []
    with ctx.Pool(workers, maxtasksperchild=4) as pool:
        for r in pool.imap_unordered(run_unit, units, chunksize=1): reps.append(r)
    tot = Rep('all')
    for r in sorted(reps, key=lambda r: r.unit): tot.merge(r)
    wall = time.time() - t0
    known = known_findings(pid)
    viol, kn = [], []
    for v in tot.viol:
        k = next((k for k in known if k['match'] in json.dumps(v)), None)
        (kn if k else viol).append((k, v) if k else v)
    for what in sorted({k['what'] for k, _ in kn}): print('KNOWN-FINDING: property=%s %s' % (pid, what))
    os.makedirs(EV, exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=meta['level'], wall_s=round(wall, 2))
    ev['coverage'] = cov = dict(
        explanation=meta['explanation'], units=len(units), obligations=tot.obl, discharged=tot.ok,
        undecided=len(tot.und), abstract_steps=tot.steps, table_rows=tot.rows,
        unit_names=sorted(r.unit for r in reps), undecided_list=tot.und[:40],
        checker_cmd=meta.get('cmd', ''), trusted_base=meta.get('trusted', TRUSTED), rule=meta.get('rule', ''))
    ev['violations'] = viol[:20]
    if viol:
        rd = os.path.join(EV, 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s.json' % pid)
        json.dump(dict(property=pid, violations=viol, rerun='cd /verif && python3 check.py %s' % pid), open(rp, 'w'), indent=1)
        for v in viol[:12]:
            print('  [%s] %s: %s%s' % (v['unit'], v['rule'], v['message'][:700], '\n      at %s' % v['loc'] if v['loc'] else ''))
        if len(viol) > 12: print('  ... %d more' % (len(viol) - 12))
    for u in tot.und[:10]: print('  undecided [%s] %s' % (u['unit'], u['why'][:400]))
    print('%s: %d units, %d obligations, %d discharged, %d undecided, %d violations, %.1f s' % (pid, len(units), tot.obl, tot.ok, len(tot.und), len(viol), wall))
    slow = sorted(reps, key=lambda r: -r.wall)[:3]
    print('  slowest: ' + ', '.join('%s %.1fs' % (r.unit, r.wall) for r in slow))
    json.dump(ev, open(os.path.join(EV, pid + '.json'), 'w'), indent=1)
    if not viol and not tot.ok:
        print('analysis-broken: no obligation of %s could be decided' % pid)
        return 2
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


TRUSTED = 'clang 18 front end and optimiser (IR faithful to the source), summaries of std::upper_bound/lower_bound, fmod, ceil/floor, operator new/delete, posix_memalign; residues of distinct rational functions coincide with probability < degree * 2^-61'
