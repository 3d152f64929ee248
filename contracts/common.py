"""Shared vocabulary of the contracts."""
import z3
from engine import *
from stdmodel import Dist, DistThrows

I, R = z3.IntSort(), z3.RealSort()
RA = z3.ArraySort(I, R)
IA = z3.ArraySort(I, I)

MODULES = ['dataset', 'series', 'envelope', 'distance', 'bounds', 'order', 'registry', 'groups', 'search', 'kbest', 'grouping', 'saving', 'archives', 'loading', 'paa', 'api']
REG = []
LEMMAS = {}


class Lemma:
    """goals(): [(name, facts, goal)], each proved on its own; induction is spelled out by giving the
    base case and the step as goals"""
    props = ()
    timeout = 20
    plain = False


def lemma(cls):
    LEMMAS[cls.__name__] = cls()
    return cls


@lemma
class MulFacts(Lemma):
    """the facts about products used by the proofs hold of integer multiplication"""
    plain = True

    def goals(self):
        a, b, m, d = z3.Ints('a b m d')
        return [
            ('commutative', [], a * b == b * a),
            ('non-negative', [], Imp(z3.And(a >= 0, b >= 0), a * b >= 0)),
            ('rows', [d == b - a - 1, d * m >= 0], Imp(z3.And(a < b, m >= 0), a * m + m <= (a + 1 + d) * m)),
            ('rows, side condition', [], Imp(z3.And(d >= 0, m >= 0), d * m >= 0)),
            ('at least one row', [d == a - 1, d * b >= 0], Imp(z3.And(a >= 1, b >= 0), (1 + d) * b >= b)),
        ]


def contract(cls):
    REG.append(cls())
    return cls


def q(*names):
    return [z3.Int(n + '!q') for n in names]


def forall(vs, body, *pats):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    pats = [p for p in pats if not any(has_ite(x) for x in (p if isinstance(p, (list, tuple)) else [p]))]
    names = {v.decl().name() for v in vs}
    pats = [p for p in pats if names <= set().union(*[consts_of(x) for x in (p if isinstance(p, (list, tuple)) else [p])])]
    if pats:
        ps = [p if not isinstance(p, (list, tuple)) else z3.MultiPattern(*p) for p in pats]
        return z3.ForAll(list(vs), body, patterns=ps)
    return z3.ForAll(list(vs), body)


def has_ite(t):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE or x.sort() == z3.BoolSort():
                return True
            st.extend(x.children())
    return False


def between(lo, x, hi):
    return z3.And(lo <= x, x < hi)


def mul_in(i, n, m):
    """i in [0,n), m >= 0: row i of an n*m table lies inside it"""
    return ('row inside the table', Imp(z3.And(0 <= i, i < n, m >= 0), z3.And(mul(i, m) >= 0, mul(i, m) + m <= mul(n, m))))


# a series as the contracts see it -----------------------------------------------------------
def ts_blk(c, p):
    return c(p + '.data.blk')


def ts_off(c, p):
    return c(p + '.data.off') + c(p + '.start')


def ts_len(c, p):
    return c(p + '.length')


def ts_at(c, p, i):
    return c.at(ts_blk(c, p), ts_off(c, p) + i)


def ts_ok(c, p):
    """the window of the series lies inside its array"""
    return z3.And(ts_len(c, p) >= 0, c(p + '.end') - c(p + '.start') == ts_len(c, p), c(p + '.start') >= 0,
                  z3.Implies(ts_len(c, p) > 0, z3.And(ts_off(c, p) >= 0,
                                                      ts_off(c, p) + ts_len(c, p) <= sel(c.size(), ts_blk(c, p)))))


# dataset ---------------------------------------------------------------------------------------
def ds_fields(c, p):
    return dict(blk=c(p + '.data.blk'), off=c(p + '.data.off'), n=c(p + '.itemCount'), m=c(p + '.maxCol'),
                ln=c(p + '.lengths.len'), lens=c(p + '.lengths[]'))


def ds_ok(c, p='self'):
    """representation invariant of a dataset: a row-major table with maxCol columns of which the
    first lengths[i] of row i are the series"""
    d = ds_fields(c, p)
    i, = q('i')
    return z3.And(d['n'] >= 0, d['m'] >= 0, d['ln'] == d['n'],
                  forall(i, Imp(between(0, i, d['n']), z3.And(0 <= sel(d['lens'], i), sel(d['lens'], i) <= d['m'])), sel(d['lens'], i)),
                  z3.Implies(d['n'] > 0, z3.And(d['off'] == 0, mul(d['n'], d['m']) <= sel(c.size(), d['blk']))))


ALWAYS = [
    'machine integers are treated as mathematical integers; conversions to unsigned and unsigned subtraction are checked not to wrap, other overflow is not modelled',
    'no floating-point value is NaN; +infinity is modelled as a value above all others',
    'memory is not exhausted: allocation always succeeds',
    'distinct reference parameters do not alias unless a contract variant says so',
    'objects are destroyed at the end of their scope without observable effect other than on their own arrays',
    'standard containers, strings, heaps and sorts behave as modelled in cppv/stdmodel.py; containers move their elements unchanged',
    'output streams, clocks and atomic counters have no effect on results',
    'preconditions with an empty precondition_proved_by are established by no verified caller (among them the one-to-one ownership of data and groups by the data sets of the registry)',
    'facts a contract adds about its own symbols are definitions or instances of the lemmas listed; that no sum, square or quotient of finite points overflows is assumed',
]
EXTRA = {}


# what a property says beyond the functions proved for it: covered by the bounded search only
REST = {
    'C05': 'value of the warped Cosine and Sorensen distances (only memory safety, termination and errors are proved); empty series in pairwise distances',
    'C06': 'GenexAPI::matchingBetween, which looks the distance up by name',
    'C07': 'interleavings of the grouping threads, groups read from a file; that the distance of a window from itself is zero is a precondition',
    'C08': 'groups read from a text file; that the distance is symmetric is a precondition',
    'C09': 'groups read from a text file',
    'C13': 'saving and loading again as one statement (each of the two is proved); the printed precision of numbers; how the file system and the tokenizer divide bytes into lines and fields',
    'C14': 'text files (saveGroupsOld, loadGroupsOld); compression, that a file holds the archive written to it, files damaged behind a fitting header; that queries answer the same (the loaded groups are proved to be those stored, and what is saved to meet what loading requires)',
    'C15': 'histories as such (each operation is proved to keep the invariant of the two maps, not that data and groups of different data sets stay separate); unloadAllDataset, the destructor, groups in text files',
    'C17': 'histories of several operations as such (each operation is proved)',
}
# the functions that carry the statement are not proved: not level proof, whatever is discharged
PARTIAL = ('C14', 'C15')


def add_assumptions(prop, res, cons):
    """of every contract the proofs of the property use, not only of those listed for it"""
    res.assumptions = list(ALWAYS) + EXTRA.get(prop, [])
    for c in cons:
        for a in getattr(c, 'assumes', ()):
            a = '%s: %s' % (c.key, a)
            if a not in res.assumptions:
                res.assumptions.append(a)
    if prop in REST:
        res.assumptions.append('not proved, bounded search only: ' + REST[prop])
