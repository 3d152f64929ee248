"""Verifies the functions a property rests on: everything under contract for the property and,
transitively, every contract those proofs use."""
import importlib, json, os, pickle, sys, time, traceback
import multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, '..', 'contracts'))
import z3
from astload import Program, Extraction
from engine import Unsupported
from stdmodel import Verifier
import solve

BOXED = {('LocalLengthGroupSpace', 'memberMap')}
BASELINE = os.path.join(HERE, '..', 'contracts', 'baseline.json')


def registry():
    import common
    for m in common.MODULES:
        importlib.import_module(m)
    reg = {}
    base = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}
    for c in common.REG:
        reg.setdefault(c.key, []).append(c)
        b = base.get(name_of(c))
        if b:
            c.baseline_vars = [tuple(x) for x in b['vars']]
            c.baseline_loops = b['loops']
            c.baseline_uses = b['uses']
    return common.REG, reg


def name_of(c):
    return c.key + (':' + c.variant if c.variant else '') + ('(%s)' % ','.join(c.ptypes) if c.ptypes else '')


def make(con, reg, prog, skip=()):
    v = Verifier(prog, reg, con, BOXED)
    v.skip = skip
    v.verify()
    return v


def probe(v, ms=1500):
    """names of the program points that the contracts make unreachable"""
    bad = []
    for nm, nf, pc in v.probes:
        if nm in v.con.unreachable:
            continue
        if solve.vacuous(v.initfacts + v.facts[:nf], pc, ms):
            bad.append(nm)
    return bad


def work(job):
    """one shard of one function: dict with the results"""
    ci, shard, nshard, deadline, factor, skip = job
    con = ALL[ci]
    out = dict(name=name_of(con), ci=ci, shard=shard, obls=[], unbound=None, vacuous=[], uses=[], inlined=[], externals=[], loops=None, steps=[], skipped=sorted(skip))
    t0 = time.time()
    try:
        v = make(con, REG, PROG, skip)
    except Extraction as e:
        out['unbound'] = str(e) or 'unsupported'
        return out
    except z3.Z3Exception as e:
        out['unbound'] = 'internal: ' + str(e)[:200]
        return out
    except Exception as e:
        out['unbound'] = 'internal: ' + ''.join(traceback.format_exception_only(type(e), e)).strip()[:300]
        return out
    out['vcgen_s'] = time.time() - t0
    out['uses'] = [ALL.index(c) for c in v.used_contracts]
    out['lemmas'] = sorted(set(con.lemmas))
    out['inlined'] = sorted(v.inlined)
    out['externals'] = sorted(v.externals)
    out['requires'] = list(dict.fromkeys(v.prenames))
    out['loops'] = list(v.loopkinds)
    out['trivial'] = getattr(v, 'trivial', 0)
    out['exits'] = v.nexits
    base = getattr(con, 'baseline_loops', None)
    out['same_shape'] = base is None or base == out['loops']
    for i, o in enumerate(v.obls):
        if i % nshard != shard:
            continue
        left = deadline - time.time()
        nm = '%s: [%s] %s (%s)' % (out['name'], o.kind, o.name, o.loc)
        step = o.name if o.kind == 'lemma' else None
        if left < 1:
            out['obls'].append((i, nm, 'unknown', 'timeout', 0.0, 'no time left'))
            continue
        r = solve.discharge(v.facts_for(o), o.pc, o.goal, min(con.timeout * factor, left), cases=o.cases)
        out['obls'].append((i, nm) + tuple(r))
        if step and r[0] != 'proved':
            out['steps'].append(step)
    if shard == 0 and out['same_shape']:
        out['vacuous'] = probe(v)
    out['s'] = time.time() - t0
    return out


def second_look(job):
    """one obligation the solvers gave up on, with more time and other seeds"""
    ci, i, deadline, factor, skip = job
    con = ALL[ci]
    left = deadline - time.time()
    if left < 5:
        return ci, i, None
    v = make(con, REG, PROG, skip)
    o = v.obls[i]
    return ci, i, solve.discharge(v.facts_for(o), o.pc, o.goal, min(2.0 * con.timeout * factor, 40 * factor, left), cases=o.cases, seed=17)


def lemma_work(job):
    nm, deadline, factor = job
    import common
    L = common.LEMMAS[nm]
    out = []
    for i, (gn, facts, goal) in enumerate(L.goals()):
        left = max(1, min(L.timeout * factor, deadline - time.time()))
        r = solve.discharge(facts, z3.BoolVal(True), goal, left, plain=L.plain)
        out.append((i, 'lemma %s: %s' % (nm, gn)) + tuple(r))
    return nm, out


ALL = REG = PROG = None


class Result:
    def __init__(self):
        self.functions, self.unbound, self.failed, self.details = [], [], [], []
        self.total = self.discharged = 0
        self.backends, self.solver_s = {}, 0.0
        self.notes, self.assumptions, self.error = [], [], None
        self.inlined, self.externals, self.trusted, self.lemmas = set(), set(), set(), []
        self.level = 'proof'
        self.undecided = []

    def coverage(self):
        return dict(obligations=self.total, discharged=self.discharged,
                    checker_cmd='own verification condition generator over the clang AST of the current sources; z3 %s, cvc5 as second solver' % z3.get_version_string(),
                    trusted_base=['clang 18 AST', 'the generator and its library models in cppv/', 'z3', 'cvc5'] + sorted(self.trusted),
                    functions_under_contract=self.functions, lemmas=self.lemmas, inlined=sorted(self.inlined), assumed_calls=sorted(self.externals),
                    by_backend=self.backends, solver_s=round(self.solver_s, 2),
                    not_bound=self.unbound, undecided=self.undecided)


def closure(prop):
    import common
    base = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}
    todo = [i for i, c in enumerate(ALL) if prop in c.props and not c.trusted]
    lem = [n for n, l in common.LEMMAS.items() if prop in l.props]
    seen = []
    idx = {}
    for i, c in enumerate(ALL):
        idx.setdefault(name_of(c), i)
    while todo:
        i = todo.pop()
        if i in seen or ALL[i].trusted:
            continue
        seen.append(i)
        lem += list(ALL[i].lemmas)
        for u in base.get(name_of(ALL[i]), {}).get('uses', []):
            if u in idx:
                todo.append(idx[u])
    return sorted(seen), lem


def run(prop, repo, scratch, cores=8, budget=240, factor=1.0):
    global ALL, REG, PROG
    res = Result()
    import common
    ALL, REG = registry()
    cons, lems = closure(prop)
    lems = ['MulFacts'] + lems
    t0 = time.time()
    deadline = t0 + budget
    common.add_assumptions(prop, res, [ALL[i] for i in cons])
    if prop in common.PARTIAL:
        res.level = 'exploration'
    if not cons:
        res.level = 'exploration'
        res.notes.append('no function under contract for this property: bounded check only')
        return res
    try:
        PROG = Program(repo)
        PROG.load_all()
    except Extraction as e:
        res.unbound.append('extraction: %s' % e)
        res.notes.append('the sources could not be read by the extractor: %s; bounded check only' % str(e)[:300])
        return res
    done, results, lemres = set(), [], []
    ctx = mp.get_context('fork')
    queue = list(cons)
    while queue:
        jobs, ljobs = [], []
        for i in queue:
            done.add(i)
            n = max(1, ALL[i].shards)
            jobs += [(i, k, n, deadline, factor, ()) for k in range(n)]
        jobs.sort(key=lambda j: -j[2])
        for l in dict.fromkeys(lems):
            ljobs.append((l, deadline, factor))
        with ctx.Pool(cores, maxtasksperchild=1) as pool:
            lr = pool.map_async(lemma_work, ljobs, chunksize=1)
            rs = pool.map(work, jobs, chunksize=1)
            lemres += lr.get()
        results += rs
        lems = []
        queue = []
        for r in rs:
            for u in r['uses']:
                if u not in done and u not in queue and not ALL[u].trusted:
                    queue.append(u)
            for l in r.get('lemmas', []):
                if l not in [x for x, _ in lemres] and l not in lems:
                    lems.append(l)
    # a step inside a proof is only a help: where one fails, the function is verified without it
    for _ in range(3):
        again = {}
        # what fails although the step was assumed after it fails without it too
        sure = {r['ci'] for r in results for o in r['obls'] if '[lemma]' not in o[1] and (o[2] == 'failed' or (o[2] == 'unknown' and o[3] != 'timeout'))}
        for r in results:
            if r['steps'] and r['ci'] not in sure and r['same_shape'] and deadline - time.time() > 20:
                again.setdefault(r['ci'], set(r['skipped'])).update(r['steps'])
        if not again:
            break
        jobs = [(i, k, max(1, ALL[i].shards), deadline, factor, frozenset(sk)) for i, sk in again.items() for k in range(max(1, ALL[i].shards))]
        with ctx.Pool(cores, maxtasksperchild=1) as pool:
            rs = pool.map(work, jobs, chunksize=1)
        results = [r for r in results if r['ci'] not in again] + rs
        for i, sk in again.items():
            res.notes.append('%s: verified without the auxiliary steps %s, which are not proved on these sources' % (name_of(ALL[i]), ', '.join(sorted(sk))))
    # what the solvers gave up on is tried once more when the machine has less to do
    jobs = [(r['ci'], o[0], deadline, factor, frozenset(r['skipped'])) for r in results if r.get('same_shape') for o in r['obls'] if o[2] == 'unknown' and o[3] != 'timeout']
    if 0 < len(jobs) <= 4:
        with ctx.Pool(min(cores, len(jobs)), maxtasksperchild=1) as pool:
            later = {(ci, i): x for ci, i, x in pool.map(second_look, jobs, chunksize=1) if x and x[0] == 'proved'}
        for r in results:
            r['obls'] = [o[:2] + tuple(later[r['ci'], o[0]]) if (r['ci'], o[0]) in later else o for o in r['obls']]
    byname = {}
    for r in results:
        byname.setdefault(r['name'], []).append(r)
    for nm, rs in sorted(byname.items()):
        r0 = rs[0]
        con = ALL[r0['ci']]
        ub = [r['unbound'] for r in rs if r['unbound']]
        if ub:
            res.unbound.append('%s: %s' % (nm, ub[0]))
            res.notes.append('%s is not verified on these sources (%s): bounded check only' % (nm, ub[0]))
            continue
        n = sum(len(r['obls']) for r in rs)
        ok = sum(1 for r in rs for o in r['obls'] if o[2] == 'proved')
        secs = sum(o[4] for r in rs for o in r['obls'])
        res.total += n
        res.discharged += ok
        res.solver_s += secs
        vac = sorted({x for r in rs for x in r['vacuous']})
        for r in rs:
            res.inlined |= set(r['inlined'])
            res.externals |= set(r['externals'])
            for u in r['uses']:
                if ALL[u].trusted:
                    res.trusted.add('assumed contract of ' + name_of(ALL[u]))
            for o in r['obls']:
                res.backends[o[3]] = res.backends.get(o[3], 0) + (o[2] == 'proved')
        f = dict(function=nm, obligations=n, discharged=ok, trivially_true=r0.get('trivial', 0), loops=len(r0['loops']), solver_s=round(secs, 2), requires=r0.get('requires', []),
                 precondition_proved_by=sorted(n for n, xs in byname.items() if n != nm and any(r0['ci'] in x['uses'] for x in xs)))
        if vac:
            f['unreachable'] = vac
            res.unbound.append('%s: the contract makes %s unreachable' % (nm, ', '.join(vac)))
            res.notes.append('%s: vacuous at %s' % (nm, ', '.join(vac)))
        if n == 0:
            res.unbound.append('%s: no obligations' % nm)
        if not r0['same_shape']:
            f['note'] = 'the loops of the function are not those the invariants were written for'
        res.functions.append(f)
        for r in rs:
            for o in r['obls']:
                if o[2] == 'proved':
                    continue
                if not r['same_shape']:
                    res.undecided.append(o[1])
                elif o[2] == 'failed' or (o[2] == 'unknown' and o[3] != 'timeout'):
                    res.failed.append(o[1])
                    res.details.append('%s\n  %s by %s after %.1f s\n  %s\n' % (o[1], 'refuted' if o[2] == 'failed' else 'not provable', o[3], o[4], o[5][:3000]))
                else:
                    res.undecided.append(o[1])
        if not r0['same_shape'] and any(o[2] != 'proved' for r in rs for o in r['obls']):
            res.notes.append('%s has other loops than its invariants were written for: bounded check only' % nm)
    for nm, obls in lemres:
        ok = sum(1 for o in obls if o[2] == 'proved')
        res.total += len(obls)
        res.discharged += ok
        res.solver_s += sum(o[4] for o in obls)
        for o in obls:
            res.backends[o[3]] = res.backends.get(o[3], 0) + (o[2] == 'proved')
            if o[2] != 'proved':
                res.undecided.append(o[1])
        res.lemmas.append(dict(lemma=nm, obligations=len(obls), discharged=ok))
    for u in res.undecided[:20]:
        res.notes.append('not decided: ' + u)
    return res
