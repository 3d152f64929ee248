#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]            decides one property
check.py PROPERTY --replay SEED CASE           runs one concrete case again

The sources in /repo are read afresh on every run: once through clang's AST for the proofs, once
through g++ for the concrete search.  Exit 0: held; exit 1: violated (a VIOLATION line was printed);
anything else: the check itself failed."""
import json, os, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'cppv'))
sys.path.insert(0, os.path.join(HERE, 'contracts'))
REPO = os.environ.get('VERIF_REPO', '/repo')
FLAGS = ['-std=c++14', '-O1', '-g1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
         '-D_GLIBCXX_ASSERTIONS', '-pthread', '-I' + REPO + '/genex', '-I' + HERE + '/harness']
CORES = max(2, os.cpu_count() or 2)


class Harness:
    """The concrete search: the real sources compiled with sanitizers together with the oracles."""

    def __init__(self, scratch):
        self.dir, self.bin, self.error = scratch, None, None
        self.build_s = 0
        self.runs, self.cases, self.distinct, self.samples = 0, 0, 0, []

    def build(self):
        t0 = time.time()
        import glob
        src = sorted(glob.glob(REPO + '/genex/*.cpp') + glob.glob(REPO + '/genex/*/*.cpp')) + sorted(glob.glob(HERE + '/harness/*.cpp'))
        src.sort(key=lambda f: -os.path.getsize(f))
        objs, procs, errs = [], [], []
        lock = threading.Semaphore(CORES)

        def one(f, o):
            with lock:
                r = subprocess.run(['g++'] + FLAGS + ['-c', f, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode:
                    errs.append(f + ': ' + r.stdout.decode(errors='replace')[:2000])
        for f in src:
            o = os.path.join(self.dir, f.strip('/').replace('/', '_') + '.o')
            objs.append(o)
            t = threading.Thread(target=one, args=(f, o))
            t.start()
            procs.append(t)
        for t in procs:
            t.join()
        if not errs:
            r = subprocess.run(['g++'] + FLAGS + objs + ['-o', self.dir + '/harness', '-lboost_serialization', '-lboost_iostreams'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                errs.append(r.stdout.decode(errors='replace')[:2000])
        if errs:
            self.error = '\n'.join(errs)
        else:
            self.bin = self.dir + '/harness'
        self.build_s = time.time() - t0

    def run(self, prop, seeds, seconds, maxcases=10 ** 9, first=0):
        """one process per seed; None or the first failure"""
        ps = []
        for s in seeds:
            d = tempfile.mkdtemp(dir=self.dir)
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0')
            out = open(d + '.out', 'wb')
            ps.append((s, d, subprocess.Popen([self.bin, prop, str(s), str(seconds), str(maxcases), str(first), d],
                                              stdout=out, stderr=subprocess.STDOUT, env=env, cwd=d)))
        fail = None
        for s, d, p in ps:
            try:
                p.wait(seconds + 150)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            txt = open(d + '.out', errors='replace').read()
            self.runs += 1
            for l in txt.split('\n'):
                if l.startswith('RESULT ok'):
                    kv = dict(x.split('=') for x in l.split()[2:])
                    self.cases += int(kv['cases'])
                    self.distinct += int(kv['distinct'])
                elif l.startswith('SAMPLE ') and len(self.samples) < 5:
                    self.samples.append(l[7:])
                elif l.startswith('RESULT fail') and fail is None:
                    kv = dict(x.split('=') for x in l.split()[2:])
                    fail = dict(seed=s, case=int(kv['case']), kind=kv['kind'], output=txt)
        return fail

    def confirm(self, prop, fail):
        """the same case alone, in a fresh process"""
        r = self.run(prop, [fail['seed']], 100, 1, fail['case'])
        return r or self.run(prop, [fail['seed']], 200, 1, fail['case'])


def field(txt, tag):
    for l in txt.split('\n'):
        if l.startswith(tag + ' '):
            return l[len(tag) + 1:]
    return ''


def known_findings():
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property='):
                out.append(l[len('known: '):])
    return out


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if args and args[0] in ('quick', 'thorough'):
        tier = args[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    try:
        if args and args[0] == '--replay':
            h = Harness(scratch)
            h.build()
            if h.error:
                print(h.error)
                return 2
            f = h.run(prop, [int(args[1])], 300, 1, int(args[2]))
            print(f['output'] if f else 'the case passes')
            return 1 if f else 0
        return decide(prop, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, scratch):
    t0 = time.time()
    quick = tier == 'quick'
    h = Harness(scratch)
    th = threading.Thread(target=h.build)
    th.start()
    import prover
    pr = prover.run(prop, REPO, scratch, cores=CORES, budget=240 if quick else 500, factor=1.0 if quick else 2.0)
    th.join()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    fail, notes = None, list(pr.notes)
    base = 1000 * (seed % 1000003)
    if h.bin:
        n = 4 if quick else CORES
        fail = h.run(prop, [base + i for i in range(n)], 12 if quick else 60)
        if fail is None and pr.failed:
            # an obligation is refuted or not provable: look longer for an input
            fail = h.run(prop, [base + 100 + i for i in range(CORES)], 60 if quick else 150)
        if fail is not None:
            c = h.confirm(prop, fail)
            if c is None and fail['kind'] == 'hang':
                notes.append('a concrete case was slow but finished when run alone')
                fail = None
            elif c is not None:
                fail = c
    else:
        notes.append('concrete search not available: ' + h.error[:500])
    violation = None
    if fail is not None:
        path = os.path.join(HERE, 'replays', '%s-%d-%d.txt' % (prop, fail['seed'], fail['case']))
        with open(path, 'w') as f:
            f.write('property %s violated on a concrete input (%s)\n' % (prop, fail['kind']))
            f.write('what: %s\ninput: %s\n' % (field(fail['output'], 'MSG'), field(fail['output'], 'INPUT')))
            f.write('again: python3-vt %s/check.py %s --replay %d %d\n\n' % (HERE, prop, fail['seed'], fail['case']))
            for o in pr.failed:
                f.write('obligation that fails: %s\n' % o)
            f.write('\noutput of the run\n' + fail['output'][:20000])
        violation = 'VIOLATION property=%s replay=%s' % (prop, path)
    elif pr.failed:
        path = os.path.join(HERE, 'replays', '%s-obligations.txt' % prop)
        with open(path, 'w') as f:
            f.write('property %s: obligations of the current sources that do not hold; no failing input was found\n' % prop)
            for o in pr.failed:
                f.write('%s\n' % o)
            f.write('\n' + '\n'.join(pr.details))
        violation = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path)
    complete = pr.total > 0 and pr.discharged == pr.total and not pr.unbound
    level = pr.level if complete else 'exploration'
    cov = dict(pr.coverage())
    cov.update(concrete_search=dict(label='bounded, not part of the proof', bound=BOUNDS.get(prop, ''), evaluations=h.cases, distinct_nontrivial=h.distinct,
                                    rule='distinct generated inputs on which every oracle comparison of the property was made',
                                    processes=h.runs, build_s=round(h.build_s, 1), sanitizers='address, undefined, libstdc++ assertions',
                                    samples=h.samples[:3]))
    cov.update(evaluations=h.cases, distinct_nontrivial=h.distinct, samples=h.samples[:3],
               rule='distinct generated inputs on which every oracle comparison of the property was made')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=pr.assumptions,
              violations=1 if violation else 0, wall_s=round(time.time() - t0, 2), notes=notes)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for n in notes:
        print('note:', n)
    print('%s %s: %d functions under contract, %d/%d obligations discharged, %d not bound, %d concrete cases (%.0f s)' % (
        prop, tier, len(pr.functions), pr.discharged, pr.total, len(pr.unbound), h.cases, time.time() - t0))
    if violation:
        for k in known_findings():
            if k.startswith('property=%s ' % prop) and fail is not None and k.split(' ', 1)[1] in fail['output']:
                print('KNOWN-FINDING: ' + k)
                return 0
        print(violation)
        return 1
    if not h.bin and not complete:
        print('neither the proof nor the concrete search could be completed on these sources')
        return 2
    if pr.error:
        print(pr.error)
        return 2
    return 0


BOUNDS = json.load(open(os.path.join(HERE, 'harness', 'bounds.json')))

if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(3)
