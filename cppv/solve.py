"""Discharges the obligations of one function: z3 first (several strategies), then cvc5."""
import os, subprocess, tempfile, time
import z3


def attempt(facts, neg, ms, opts, seed=0):
    s = z3.Solver() if not opts.get('simple') else z3.SimpleSolver()
    s.set('timeout', ms)
    s.set('random_seed', seed)
    for k, v in opts.items():
        if k != 'simple':
            s.set(k, v)
    for f in facts:
        s.add(f)
    s.add(neg)
    r = s.check()
    return r, s


STRATS = [
    {'auto_config': False, 'smt.mbqi': False, 'smt.relevancy': 2},
    {'auto_config': False, 'smt.mbqi': False, 'smt.relevancy': 0, 'smt.arith.solver': 2},
    {},
    # without z3's preprocessing, which now and then rewrites away the terms a quantifier needs
    {'simple': True, 'auto_config': False, 'smt.mbqi': False, 'smt.relevancy': 2},
]


def cvc5(facts, neg, ms):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(neg)
    txt = s.to_smt2()
    fd, p = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, ('(set-logic ALL)\n' + txt).encode())
    os.close(fd)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % ms, '--full-saturate-quant', p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=ms / 1000 + 10)
        out = r.stdout.decode().strip().split('\n')[0]
        if os.environ.get('CVCERR') and not out:
            print(r.stderr.decode()[:300])
    except Exception:
        out = 'unknown'
    finally:
        os.unlink(p)
    return out


def mentions(fs, name, seen=None):
    seen = set()
    st = list(fs)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().name() == name:
                return True
            st.extend(x.children())
    return False


def quantified(f):
    st, ids = [f], set()
    while st:
        x = st.pop()
        if x.get_id() in ids:
            continue
        ids.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


ORDER = (0, 2, 3)


def edge(body, vs):
    """(v, t) when the goal is about the v below t + 1"""
    if not z3.is_implies(body):
        return None
    st, ids = [body.arg(0)], {v.get_id(): v for v in vs}
    while st:
        x = st.pop()
        if z3.is_and(x):
            st.extend(x.children())
        elif z3.is_lt(x) and x.arg(0).get_id() in ids and z3.is_add(x.arg(1)) and x.arg(1).num_args() == 2 and z3.is_int_value(x.arg(1).arg(1)) and x.arg(1).arg(1).as_long() == 1:
            return ids[x.arg(0).get_id()], x.arg(1).arg(0)
    return None


def split_goal(goal, asm, out, n=[0]):
    """goal as a list of (assumptions, quantifier-free-ish goals): conjunctions are split,
    implications and universal quantifiers opened; the trigger terms of an opened quantifier are
    kept as ground terms"""
    if z3.is_and(goal):
        for x in goal.children():
            split_goal(x, asm, out)
    elif z3.is_implies(goal):
        split_goal(goal.arg(1), asm + [goal.arg(0)], out)
    elif z3.is_quantifier(goal) and goal.is_forall():
        n[0] += 1
        vs = [z3.Const('sk!%s!%d' % (goal.var_name(i).replace('!q', ''), n[0]), goal.var_sort(i)) for i in range(goal.num_vars())]
        rv = list(reversed(vs))
        body = z3.substitute_vars(goal.body(), *rv)
        trig = []
        for p in range(goal.num_patterns()):
            for t in goal.pattern(p).children():
                t = z3.substitute_vars(t, *rv)
                if t.sort() == z3.BoolSort():
                    trig.append(z3.Or(t, z3.Not(t)))
                else:
                    k = z3.Function('trig_%s' % t.sort().name().replace(' ', '_'), t.sort(), z3.BoolSort())
                    trig.append(k(t))
        last = edge(body, vs)
        if last is not None:
            # the newest element apart from the older ones
            v, t = last
            split_goal(body, asm + trig + [v < t], out)
            at = lambda x: z3.substitute(x, (v, t))
            split_goal(at(body), asm + [at(x) for x in trig], out)
        else:
            split_goal(body, asm + trig, out)
    else:
        out.append((asm, goal))
    return out


def vacuous(facts, pc, ms):
    """the facts contradict each other at this point"""
    facts = list(facts)
    import engine
    if mentions(facts + [pc], 'imul'):
        facts += engine.mul_facts()
    for o in STRATS[:1]:
        r, _ = attempt(facts, pc, ms, o)
        if r == z3.unsat:
            return True
    return False


def discharge(facts, pc, goal, budget=20.0, use_cvc5=True, plain=False, cases=(), seed=0):
    """('proved'|'failed'|'unknown', backend, seconds, detail)"""
    t0 = time.time()
    parts = split_goal(goal, [], [])
    used = set()
    for asm, g in parts:
        if plain:
            r, s = attempt(list(facts) + asm, z3.And(pc, z3.Not(g)), int(1000 * budget), {})
            r = ('proved', 'z3', 0, '') if r == z3.unsat else ('failed', 'z3', 0, str(s.model())[:2000]) if r == z3.sat else ('unknown', 'timeout', 0, s.reason_unknown())
        else:
            r = discharge1(list(facts) + asm, pc, g, budget, use_cvc5, cases, seed)
        if r[0] != 'proved':
            return r[0], r[1], time.time() - t0, r[3]
        used.add(r[1])
    return 'proved', '+'.join(sorted(used)) or 'z3', time.time() - t0, ''


def by_cases(facts, neg, cases, budget, deadline):
    """splits on the conditions of the branches taken, most recent first, as far as needed"""
    if not cases:
        return False
    k, rest = cases[-1], cases[:-1]
    for v in (k, z3.Not(k)):
        ms = int(1000 * min(budget * 0.15, deadline - time.time()))
        if ms <= 0:
            return False
        r, _ = attempt(facts + [v], neg, ms, STRATS[0])
        if r != z3.unsat and not by_cases(facts + [v], neg, rest, budget, deadline):
            return False
    return True


def discharge1(facts, pc, goal, budget=20.0, use_cvc5=True, cases=(), seed=0):
    """('proved'|'failed'|'unknown', backend, seconds, detail)"""
    import engine
    t0 = time.time()
    facts = list(facts)
    nl = mentions(facts + [pc, goal], 'imul')
    neg = z3.And(pc, z3.Not(goal))
    # short attempts first; most need nothing about products
    full = facts + engine.mul_facts() if nl else facts
    for fs in ([facts, full] if nl else [facts]):
        for i in ORDER:
            if fs is facts and i == ORDER[1] and attempt([f for f in facts if not quantified(f)], neg, int(40 * budget), {})[0] == z3.unsat:
                return 'proved', 'z3', time.time() - t0, ''
            if attempt(fs, neg, int(40 * budget), STRATS[i])[0] == z3.unsat:
                return 'proved', 'z3', time.time() - t0, ''
    facts = full
    reasons = []
    plans = [(0, 0.25), (2, 0.25), (1, 0.3), (0, 0.5)]
    sat = None
    for n, (i, frac) in enumerate(plans):
        fs = facts + ([engine.mul_def()] if nl and n >= 2 else [])
        r, s = attempt(fs, neg, int(1000 * budget * frac), STRATS[i], seed=seed + n)
        if r == z3.unsat:
            return 'proved', 'z3', time.time() - t0, ''
        if r == z3.sat and not (nl and n < 2):
            return 'failed', 'z3', time.time() - t0, str(s.model())[:3000]
        reasons.append(s.reason_unknown())
        if n == 0 and cases:
            if by_cases(facts, neg, list(cases), budget, time.time() + budget):
                return 'proved', 'z3', time.time() - t0, ''
        if i == 0 and n > 0:
            break
    if use_cvc5:
        out = cvc5(facts, neg, int(1000 * budget))
        if out == 'unsat':
            return 'proved', 'cvc5', time.time() - t0, ''
        if out == 'sat':
            return 'failed', 'cvc5', time.time() - t0, ''
        reasons.append('cvc5 ' + out)
    gave_up = any('incomplete' in r or 'saturat' in r for r in reasons)
    return 'unknown', 'z3' if gave_up else 'timeout', time.time() - t0, '; '.join(reasons)
