"""Development runner: verifies the contracts whose name contains one of the arguments.
--baseline records loops, variables and used contracts of the current sources."""
import hashlib, json, os, pickle, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import z3
import prover, solve
from prover import *
import multiprocessing as mp


def program(repo):
    h = hashlib.sha1()
    for d, _, fs in sorted(os.walk(repo + '/genex')):
        for f in sorted(fs):
            h.update(open(os.path.join(d, f), 'rb').read())
    for f in ('astload.py', 'cxxtypes.py'):
        h.update(open(os.path.join(HERE, f), 'rb').read())
    cache = os.environ.get('PROGCACHE', '')
    cache = cache and cache + '/prog.%s.pkl' % h.hexdigest()
    if cache and os.path.exists(cache):
        return pickle.load(open(cache, 'rb'))
    prog = Program(repo)
    prog.load_all()
    if cache:
        pickle.dump(prog, open(cache, 'wb'), -1)
    return prog


def one(o):
    o, facts, con = V.obls[o], None, V.con
    return solve.discharge(V.facts_for(o), o.pc, o.goal, con.timeout, cases=o.cases, use_cvc5=not os.environ.get('NOCVC'))


V = None
if __name__ == '__main__':
    allc, reg = registry()
    prog = program(os.environ.get('VERIF_REPO', '/repo'))
    if '--baseline' in sys.argv:
        out = {}
        for con in allc:
            if con.trusted:
                continue
            con.baseline_vars = [('', '')]
            v = make(con, reg, prog)
            out[name_of(con)] = dict(loops=v.loopkinds, vars=getattr(v, 'cur_vars', []), uses=sorted(name_of(c) for c in v.used_contracts))
        json.dump(out, open(BASELINE, 'w'), indent=0, sort_keys=True)
        print(len(out), 'contracts recorded')
        sys.exit(0)
    want = sys.argv[1:]
    tot = [0, 0]
    for con in allc:
        nm = name_of(con)
        if want and not any(w in nm or w in con.props for w in want):
            continue
        if con.trusted:
            continue
        t0 = time.time()
        try:
            v = V = make(con, reg, prog)
        except Extraction as e:
            print(nm, 'EXTRACTION', e)
            if os.environ.get('TB'):
                traceback.print_exc()
            continue
        t1 = time.time()
        idx = [i for i, o in enumerate(v.obls) if not os.environ.get('ONLY') or os.environ['ONLY'] in o.name]
        with mp.get_context('fork').Pool(8) as pool:
            rs = pool.map(one, idx, chunksize=1)
        good = sum(r[0] == 'proved' for r in rs)
        tot[0] += len(rs)
        tot[1] += good
        print('%s: %d/%d obligations, %d facts, loops %d, inlined %s, exits %s, vcgen %.1fs solver %.1fs wall %.1fs max %.1fs %s' % (
            nm, good, len(idx), len(v.facts), len(v.loopidx), sorted(v.inlined), v.nexits, t1 - t0, sum(r[2] for r in rs), time.time() - t0, max([r[2] for r in rs] + [0]),
            '' if all(r[1] == 'z3' for r in rs) else sorted({r[1] for r in rs})))
        for i, r in zip(idx, rs):
            o = v.obls[i]
            if r[0] != 'proved' or os.environ.get('V'):
                print('   %-8s %-7s %.2fs  #%d [%s] %s  (%s)' % (r[0], r[1], r[2], i, o.kind, o.name, o.loc))
                if r[0] == 'failed' and os.environ.get('M'):
                    print(r[3])
                if r[0] == 'unknown':
                    print('      ', r[3])
        if not os.environ.get('NOPROBE'):
            for b in probe(v):
                print('   VACUOUS', b)
    import common
    for nm in common.LEMMAS:
        if want and not any(w in nm for w in want + [l for c in allc if any(w in name_of(c) or w in c.props for w in want) for l in c.lemmas]):
            continue
        _, rs = lemma_work((nm, time.time() + 1000, 1.0))
        print('lemma', nm, sum(r[2] == 'proved' for r in rs), '/', len(rs), [(r[1], r[2:]) for r in rs if r[2] != 'proved'])
    print('total %d/%d' % (tot[1], tot[0]))
