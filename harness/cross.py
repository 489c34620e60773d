"""Executable contracts that cut across the indexes: C21, C22, C23."""
import copy
import itertools
import random

from common import Harness, Fail, check, eq, close
import simple
import text
from simple import fam, B32, B64


def answers(m):
    """A comparable copy of a result."""
    if m is None:
        return None
    if hasattr(m, 'items'):
        return {d: round(s, 4) if isinstance(s, float) else s
                for d, s in m.items()}
    return list(m)


class Subject:
    """One index (or lexicon) with its operations and its queries."""

    def __init__(self, case, f=None):
        self.case = case
        kind = case['what']
        self.fam = fam(case['fam'])
        args = () if case['fam'] == 32 else (self.fam,)
        if kind == 'field':
            from zope.index.field import FieldIndex
            self.ix = FieldIndex(*args)
        elif kind in ('keyword', 'keywordci'):
            from zope.index import keyword
            self.ix = (keyword.KeywordIndex if kind == 'keyword' else
                       keyword.CaseInsensitiveKeywordIndex)(*args)
            self.ix.tree_threshold = case['threshold']
        elif kind == 'topic':
            from zope.index.topic import TopicIndex
            from zope.index.topic.filter import PythonFilteredSet
            self.ix = TopicIndex(*args)
            for n, e in case['filters']:
                self.ix.addFilter(PythonFilteredSet(n, e, self.fam))
        else:
            from zope.index.text.lexicon import Lexicon
            lex = Lexicon(*text.pipeline('default'))
            ix = text.index_class(kind)(lex, *args)
            if case['wrapped']:
                from zope.index.text import TextIndex
                ix = TextIndex(lex, ix)
            self.ix = ix
        self.late = 0

    @property
    def text(self):
        return self.case['what'] in ('okapi', 'cosine')

    @property
    def base(self):
        return self.ix.index if self.case['wrapped'] else self.ix

    def op(self, op):
        ix, what = self.ix, self.case['what']
        if op[0] == 'i':
            v = op[2]
            if what == 'field':
                v = simple.hashable(v)
            elif what.startswith('keyword'):
                v = list(v)
            ix.index_doc(op[1], v)
        elif op[0] == 'u':
            ix.unindex_doc(op[1])
        elif op[0] == 'c':
            ix.clearFilters() if what == 'topic' else ix.clear()
        elif op[0] == 'o' and what.startswith('keyword'):
            ix.optimize()
        elif op[0] == 't' and what.startswith('keyword'):
            ix.tree_threshold = op[1]
        elif op[0] == 'f' and what == 'topic':
            from zope.index.topic.filter import PythonFilteredSet
            ix.addFilter(PythonFilteredSet(op[1], op[2], self.fam))
        elif op[0] == 'd' and what == 'topic':
            if op[1] in ix._filters:
                ix.delFilter(op[1])
        elif op[0] == 'l' and self.text:
            self.base.lexicon.sourceToWordIds(op[1])

    # every query is (name, argument, call)

    def queries(self, qs):
        what = self.case['what']
        ix = self.ix
        for q in qs:
            kind, arg = q
            if what == 'field':
                if kind == 'range':
                    arg = tuple(simple.hashable(v) for v in arg)
                    yield q, arg, ix.apply, True
                elif kind == 'sort':
                    ids, form, rev, lim = arg
                    a = ids if form == 'list' else getattr(
                        self.fam.IF, form)(ids)
                    yield q, a, (lambda a, r=rev, n=lim: list(
                        ix.sort(a, reverse=r, limit=n))), False
            elif what == 'topic' or what.startswith('keyword'):
                if kind == 'dict':
                    yield q, {'operator': arg[1], 'query': list(arg[0])}, \
                        ix.apply, True
                elif kind == 'list':
                    yield q, list(arg[0]), (
                        lambda a, o=arg[1]: ix.search(a, o)), True
                elif kind == 'plain':
                    yield q, list(arg[0]), ix.apply, True
                elif kind == 'has' and what != 'topic':
                    yield q, arg, (lambda a: bool(ix.has_doc(a))), False
            else:
                b = self.base
                if kind == 'apply':
                    if self.case['wrapped']:
                        yield q, arg, ix.apply, True
                elif kind == 'term':
                    yield q, arg, b.search, True
                elif kind == 'phrase':
                    yield q, arg, b.search_phrase, True
                elif kind == 'glob':
                    yield q, arg, b.search_glob, True
                elif kind == 'weight':
                    yield q, list(arg), b.query_weight, False
                elif kind == 'words':
                    yield q, arg, (lambda a: list(b.get_words(a))
                                   if b.has_doc(a) else None), False
                elif kind == 'has':
                    yield q, arg, (lambda a: bool(b.has_doc(a))), False
                elif kind == 'lex':
                    yield q, arg, (lambda a: (
                        list(b.lexicon.termToWordIds(a)),
                        list(b.lexicon.parseTerms(a)),
                        b.lexicon.get_wid(a))), False
        if what != 'topic':
            yield ['docs', None], None, (lambda a: ix.documentCount()), False
            yield ['words', None], None, (lambda a: ix.wordCount()), False
        if self.text:
            b = self.base
            yield ['lexicon', None], None, (lambda a: (
                b.lexicon.wordCount(), sorted(b.lexicon.items()),
                sorted(b.lexicon.wids()), sorted(b.lexicon.words()))), False

    def ask(self, call, arg):
        """-> answer, as a comparable value (errors are answers too)"""
        from zope.index.text.parsetree import ParseError, QueryError
        try:
            r = call(arg)
        except (ParseError, QueryError) as e:
            return ('error', type(e).__name__)
        if hasattr(r, 'keys') or hasattr(r, 'has_key'):
            return answers(r)
        return r

    def battery(self, qs):
        out = []
        for q, arg, call, _ in self.queries(qs):
            out.append((q, self.ask(call, arg)))
        return out


def compare(a, b, what):
    for (q, x), (_, y) in zip(a, b):
        if isinstance(x, dict) and isinstance(y, dict):
            eq(sorted(x), sorted(y), f'{what}: {q}')
            for d in x:
                close(x[d], y[d], f'{what}: {q}, score of {d}', 1e-4)
        elif isinstance(x, float) and isinstance(y, float):
            close(x, y, f'{what}: {q}', 1e-6)
        else:
            eq(x, y, f'{what}: {q}')


KINDS = ['field', 'keyword', 'keywordci', 'topic', 'okapi', 'cosine']


def random_case(rng, what=None, bits=None, steps=None, big=False):
    what = what or rng.choice(KINDS)
    bits = bits or rng.choice([32, 32, 64])
    case = dict(what=what, fam=bits, threshold=rng.choice([1, 2, 3, 64]),
                wrapped=rng.random() < .6, filters=[])
    ids = simple.docid_pool(rng, bits, rng.choice([14, 30]) if big
                            else rng.choice([2, 4, 8]))
    vals = simple.field_values(rng)
    kws = rng.sample(simple.KW, rng.choice([2, 5]))
    ws = rng.sample(text.WORDS, rng.choice([2, 4, 8]))
    names = ['f1', 'f2', 'f3']
    objs = rng.sample(simple.OBJS, 5)
    if what == 'topic':
        case['filters'] = [[n, rng.choice(simple.EXPRS)] for n in names[
            :rng.randint(1, 3)]]

    def value():
        if what == 'field':
            return rng.choice(vals)
        if what.startswith('keyword'):
            return [rng.choice(kws) for _ in range(rng.choice([0, 1, 2, 3]))]
        if what == 'topic':
            return rng.choice(objs)
        return text.some_text(rng, ws)

    def op():
        r = rng.random()
        if r < .7:
            return ['i', rng.choice(ids), value()]
        if r < .9:
            return ['u', rng.choice(ids)]
        if r < .93:
            return ['c']
        if what.startswith('keyword'):
            return rng.choice([['o'], ['t', rng.choice([1, 2, 64])]])
        if what == 'topic':
            return rng.choice([['f', rng.choice(names),
                                rng.choice(simple.EXPRS)],
                               ['d', rng.choice(names)]])
        if what in ('okapi', 'cosine'):
            return ['l', rng.choice(text.WORDS) + ' other']
        return ['u', rng.choice(ids)]
    case['ops'] = [op() for _ in range(rng.randint(1, steps or rng.choice(
        [3, 8, 25]) * (4 if big else 1)))]

    def query():
        if what == 'field':
            if rng.random() < .5:
                return ['range', [rng.choice(vals + [None]), rng.choice(
                    vals + [None])]]
            given = [rng.choice(ids + [77]) for _ in range(rng.choice(
                [1, 3, 10]))]
            return ['sort', [given, rng.choice(['list', 'Set', 'TreeSet']),
                             rng.random() < .5, rng.choice([None, 1, 2])]]
        if what == 'topic' or what.startswith('keyword'):
            pool = names if what == 'topic' else kws + ['nope']
            r = rng.random()
            if r < .15:
                return ['has', rng.choice(ids)]
            return [rng.choice(['dict', 'list', 'plain']),
                    [[rng.choice(pool) for _ in range(rng.choice([0, 1, 2]))],
                     rng.choice(['and', 'or'])]]
        t = [rng.choice(ws) for _ in range(rng.choice([1, 1, 2]))]
        k = rng.choice(['apply', 'apply', 'apply', 'term', 'term', 'phrase',
                        'glob', 'weight', 'words', 'has', 'lex'])
        if k == 'apply':
            return [k, rng.choice([' AND ', ' OR ', ' ', ' AND NOT ', '-',
                                   ' OR nope ', ' AND (the OR ']).join(
                t + [rng.choice(ws)]) + rng.choice(['', '', ')', ' fo*'])]
        if k in ('term', 'phrase', 'lex'):
            return [k, ' '.join(t)]
        if k == 'glob':
            return [k, t[0][0] + rng.choice(['*', '?*'])]
        if k == 'weight':
            return [k, t + t[:1]]
        return [k, rng.choice(ids)]
    case['queries'] = [query() for _ in range(rng.choice([2, 5, 9]))]
    return case


class C21(Harness):
    id = 'C21'
    rule = ('random indexes of every kind; each query issued twice with all '
            'answers (and query objects) compared before and after, also at '
            'intermediate points, then further changes applied to the queried '
            'index and to one never queried; non-trivial: some query has a '
            'non-empty answer')

    def cases(self, rng, tier):
        for k in itertools.count():
            yield random_case(rng, KINDS[k % len(KINDS)], big=k % 7 == 6)

    def run(self, case):
        s, twin = Subject(case), Subject(case)
        nt = False
        half = len(case['ops']) * 2 // 3
        for part in (case['ops'][:half], case['ops'][half:]):
            for op in part:
                s.op(op)
                twin.op(op)
            before = s.battery(case['queries'])
            for q, arg, call, _ in s.queries(case['queries']):
                keep = copy.deepcopy(arg) if not hasattr(
                    arg, 'insert') or isinstance(arg, list) else type(arg)(
                    list(arg))
                first = s.ask(call, arg)
                self.same(arg, keep, q)
                compare([(q, s.ask(call, arg))], [(q, first)],
                        'same query again')
                compare(s.battery(case['queries']), before,
                        f'answers after {q}')
                nt |= bool(first)
        compare(twin.battery(case['queries']), s.battery(case['queries']),
                'against an index that was not queried in between')
        return nt

    def same(self, arg, keep, q):
        if isinstance(arg, (list, tuple, dict, str, int, type(None))):
            eq(arg, keep, f'query object after {q}')
        else:
            eq(list(arg), list(keep), f'docids after {q}')


class C22(Harness):
    id = 'C22'
    rule = ('histories of every kind on both families with ids up to the '
            'extremes, clear included; every result must be a collection of '
            'the family and equal the one got with small ids; non-trivial: '
            'an id near the extreme is returned')

    def cases(self, rng, tier):
        for k in itertools.count():
            bits = [64, 64, 32][k % 3]
            case = random_case(rng, KINDS[k % len(KINDS)], bits=bits)
            lim = B32 if bits == 32 else B64
            old = sorted({o[1] for o in case['ops'] if o[0] in 'iu'})
            new = rng.sample([lim - 1, -lim, lim - 2, B32 - 1, -B32, 7,
                              lim // 2, -1, 0, lim // 2 + 1, 1 - lim] +
                             list(range(20, 50)), len(old))
            if case['what'] in ('field', 'keyword', 'keywordci', 'topic') \
                    and rng.random() < .4:
                case['ops'].insert(len(case['ops']) // 2, ['c'])
            case['ids'] = [[a, b] for a, b in zip(old, new)]
            yield case

    def run(self, case):
        ids = dict(map(tuple, case['ids']))
        big, small = Subject(case), Subject(case)
        IF = big.fam.IF
        coll = (IF.Set, IF.TreeSet, IF.Bucket, IF.BTree)
        rank = {b: i for i, b in enumerate(sorted(ids.values()))}
        nt = False
        for op in case['ops']:
            if op[0] in 'iu':
                b = ids.get(op[1], op[1])
                big.op([op[0], b] + op[2:])
                small.op([op[0], rank.get(b, op[1])] + op[2:])
            else:
                big.op(op)
                small.op(op)

        def tr(q, f):
            if q[0] == 'sort':
                return ['sort', [[f(d) for d in q[1][0]]] + q[1][1:]]
            if q[0] in ('has', 'words') and isinstance(q[1], int):
                return [q[0], f(q[1])]
            return q
        qb = [tr(q, lambda d: ids.get(d, 50)) for q in case['queries']]
        qs = [tr(q, lambda d: rank.get(ids.get(d, 50), 10 ** 6))
              for q in case['queries']]
        for (q, arg, call, res), (_, arg2, call2, _) in zip(
                list(big.queries(qb)), list(small.queries(qs))):
            a, b = big.ask(call, arg), small.ask(call2, arg2)
            if isinstance(a, tuple) and a and a[0] == 'error':
                eq(a, b, f'{q}')
                continue
            if isinstance(a, dict):
                a2 = {rank[d]: s for d, s in a.items()}
            elif isinstance(a, list) and q[0] in (
                    'range', 'dict', 'list', 'plain', 'sort'):
                a2 = [rank[d] for d in a]
            else:
                a2 = a
            compare([(q, a2)], [(q, b)], 'against small ids')
            if res:
                r = call(arg)
                if r is not None:
                    check(isinstance(r, coll), f'{q} gave a '
                          f'{type(r).__module__}.{type(r).__name__}, not a '
                          f'collection of {case["fam"]}-bit ids')
                    nt |= any(abs(d) > B32 // 4 for d in r)
        return nt


class C23(Harness):
    id = 'C23'
    rule = ('an index stored in a ZODB, commits and cache flushes between its '
            'operations; after every commit a fresh connection must answer as '
            'a twin in memory does; non-trivial: something was changed after '
            'the first commit')

    def cases(self, rng, tier):
        for k in itertools.count():
            case = random_case(rng, KINDS[k % len(KINDS)], big=k % 5 == 4)
            case['ops'] = [
                [rng.choice(['', '', 'C', 'CM', 'A'])] + op
                for op in case['ops']]
            yield case

    def run(self, case):
        import transaction
        from ZODB.DB import DB
        from ZODB.MappingStorage import MappingStorage
        db = DB(MappingStorage())
        twin = Subject(case)
        tm = transaction.TransactionManager()
        conn = db.open(tm)
        nt = False
        try:
            s = Subject(case)
            conn.root()['x'] = s.ix
            tm.commit()
            n = 0
            for i, op in enumerate(case['ops'] + [['CM', 'none']]):
                flags, op = op[0], op[1:]
                if 'A' in flags and n:
                    pass
                s.op(op)
                twin.op(op)
                n += 1
                if 'C' in flags:
                    tm.commit()
                    nt |= i > 0
                    if 'M' in flags:
                        conn.cacheMinimize()
                    tm2 = transaction.TransactionManager()
                    c2 = db.open(tm2)
                    try:
                        c2.cacheMinimize()
                        o = Subject(case)
                        o.ix = c2.root()['x']
                        compare(o.battery(case['queries']),
                                twin.battery(case['queries']),
                                f'loaded after step {i}')
                    finally:
                        tm2.abort()
                        c2.close()
        finally:
            tm.abort()
            conn.close()
            db.close()
        return nt


ALL = [C21, C22, C23]
