"""Executable contracts: field, keyword, topic, nbest, setops, codings."""
import itertools

from common import Harness, Fail, check, eq, close

B32, B64 = 2 ** 31, 2 ** 63


def fam(name):
    import BTrees
    return {32: BTrees.family32, 64: BTrees.family64}[name]


def docid_pool(rng, bits, n):
    """Document ids: small ones, negative ones, the extremes."""
    lim = B32 if bits == 32 else B64
    pool = list(range(1, n + 1))
    if rng.random() < .4:
        pool[:5] = [0, -1, lim - 1, -lim, lim // 2]
    if rng.random() < .2:
        pool = [p if abs(p) > 2 * n else p - n // 2 for p in pool]
    return list(dict.fromkeys(pool))


def refuses(exc, f, *a):
    try:
        r = f(*a)
    except exc:
        return True
    raise Fail(f'{getattr(f, "__name__", f)}{a!r} gave {r!r} instead of '
               f'raising {exc}')


# -- field ---------------------------------------------------------------------

def field_values(rng):
    k = rng.random()
    if k < .35:
        vals = list(range(rng.choice([2, 4, 9])))
    elif k < .6:
        vals = ['', 'a', 'aa', 'ab', 'b', 'é', 'z']
    elif k < .7:
        vals = [-1.5, 0.0, 0.25, 2.0, 1e300]
    elif k < .8:
        vals = [[0, 0], [0, 1], [1, 0]]     # become tuples
    else:
        vals = list(range(rng.choice([40, 200])))
    if rng.random() < .4:
        vals.append(None)
    return vals


def hashable(v):
    return tuple(v) if isinstance(v, list) else v


def field_history(rng, big=False):
    bits = rng.choice([32, 32, 64])
    vals = field_values(rng)
    n = 300 if big else rng.choice([3, 6, 12, 40])
    ids = docid_pool(rng, bits, n)
    ops = []
    m = rng.randint(1, 400 if big else rng.choice([4, 10, 40]))
    for _ in range(m):
        r = rng.random()
        if r < .68:
            ops.append(['i', rng.choice(ids), rng.choice(vals)])
        elif r < .97:
            ops.append(['u', rng.choice(ids)])
        else:
            ops.append(['c'])
    return dict(fam=bits, ops=ops), ids, vals


class Field(Harness):
    """Common part: replay a history on a FieldIndex and a dict."""

    def make(self, case):
        from zope.index.field import FieldIndex
        self.ix = FieldIndex(fam(case['fam'])) if case.get(
            'explicit', case['fam'] == 64) else FieldIndex()
        self.ref = {}

    def op(self, op):
        ix, ref = self.ix, self.ref
        if op[0] == 'i':
            v = hashable(op[2])
            ix.index_doc(op[1], v)
            ref[op[1]] = v
        elif op[0] == 'u':
            ix.unindex_doc(op[1])
            ref.pop(op[1], None)
        elif op[0] == 'c':
            ix.clear()
            ref.clear()


def val_key(v):
    return (v is not None, v if v is not None else 0)


class C01(Field):
    id = 'C01'
    rule = ('random histories of index_doc/unindex_doc/clear with re-indexing '
            'over ints, strings, floats, tuples and None, ids up to the '
            'extremes of both families, range queries after every few steps; '
            'non-trivial: some query returned a proper non-empty subset')

    def cases(self, rng, tier):
        for k in itertools.count():
            case, ids, vals = field_history(rng, big=k % 40 == 39)
            qs = []
            for _ in range(rng.choice([2, 6, 12])):
                lo, hi = rng.choice(vals), rng.choice(vals)
                if rng.random() < .7 and lo is not None and hi is not None \
                        and hashable(hi) < hashable(lo):
                    lo, hi = hi, lo
                r = rng.random()
                if r < .1:
                    lo = None
                elif r < .2:
                    hi = None
                qs.append([lo, hi])
            case['queries'] = qs
            yield case

    def run(self, case):
        self.make(case)
        nt = False
        every = max(1, len(case['ops']) // 6)
        for i, op in enumerate(case['ops']):
            self.op(op)
            if i % every == 0 or i == len(case['ops']) - 1:
                for lo, hi in case['queries']:
                    lo, hi = hashable(lo), hashable(hi)
                    want = sorted(
                        d for d, v in self.ref.items()
                        if (lo is None or val_key(v) >= val_key(lo)) and
                        (hi is None or val_key(v) <= val_key(hi)))
                    got = list(self.ix.apply((lo, hi)))
                    eq(sorted(got), want, f'apply({(lo, hi)!r}) after step '
                       f'{i}')
                    nt |= 0 < len(want) < len(self.ref)
        return nt


class C02(Field):
    id = 'C02'
    rule = ('random histories as for C01, both counts compared after every '
            'step; non-trivial: a document was re-indexed or unindexed')

    def cases(self, rng, tier):
        for k in itertools.count():
            yield field_history(rng, big=k % 40 == 39)[0]

    def run(self, case):
        self.make(case)
        nt = False
        for i, op in enumerate(case['ops']):
            nt |= op[0] != 'c' and op[1] in self.ref
            self.op(op)
            eq(self.ix.documentCount(), len(self.ref),
               f'documentCount after step {i}')
            eq(self.ix.wordCount(), len(set(self.ref.values())),
               f'wordCount after step {i}')
        return nt


class C03(Field):
    id = 'C03'
    rule = ('random contents, random docid collections (list, Set, TreeSet, '
            'with unknown ids), reverse and limits chosen so that every '
            'strategy occurs; non-trivial: at least two documents returned')

    def cases(self, rng, tier):
        for k in itertools.count():
            case, ids, vals = field_history(rng, big=k % 10 == 9)
            pool = ids + [max(ids) - 7, 999983, 17]
            qs = []
            for _ in range(8):
                n = rng.choice([0, 1, 2, 5, len(ids), len(ids) + 3])
                given = [rng.choice(pool) for _ in range(n)]
                if rng.random() < .3:
                    given = list(ids)
                lim = rng.choice([None, None, 1, 2, 3, len(given) // 5 + 1,
                                  len(given), len(given) + 5])
                if lim is not None:
                    lim = max(1, lim)
                qs.append([given, rng.choice(['list', 'Set', 'TreeSet',
                                              'tuple']),
                           rng.random() < .5, lim])
            case['queries'] = qs
            yield case

    def run(self, case):
        self.make(case)
        for op in case['ops']:
            self.op(op)
        IF = fam(case['fam']).IF
        nt = False
        for given, kind, rev, lim in case['queries']:
            arg = {'list': list, 'tuple': tuple, 'Set': IF.Set,
                   'TreeSet': IF.TreeSet}[kind](given)
            kw = {} if lim is None else {'limit': lim}
            got = list(self.ix.sort(arg, reverse=rev, **kw))
            have = [d for d in set(given) if d in self.ref]
            what = f'sort({kind} of {len(set(given))}, {rev}, {lim})'
            eq(len(set(got)), len(got), what + ' repeats a document')
            check(set(got) <= set(have), what + f' gave {got!r}, not indexed '
                  'or not asked for')
            order = sorted((val_key(self.ref[d]) for d in have), reverse=rev)
            if lim is not None:
                order = order[:lim]
            eq([val_key(self.ref[d]) for d in got], order,
               what + ' values in order')
            eq(list(arg), list(type(arg)(given)), what + ' argument after')
            nt |= len(got) > 1
        try:
            list(self.ix.sort([1], limit=0))
        except ValueError:
            pass
        else:
            raise Fail('limit=0 accepted')
        return nt


# -- keyword -------------------------------------------------------------------

KW = ['a', 'b', 'c', 'A', 'B', 'Ab', 'aB', 'ab', 'é', 'É', 'zz', 'ß', '']


def keyword_history(rng, big=False):
    bits = rng.choice([32, 32, 64])
    kws = rng.sample(KW, rng.choice([2, 5, len(KW)]))
    if big:
        kws += [f'w{i}' for i in range(60)]
    ids = docid_pool(rng, bits, 200 if big else rng.choice([3, 8, 20]))
    ops = []
    for _ in range(rng.randint(1, 350 if big else rng.choice([4, 12, 40]))):
        r = rng.random()
        if r < .62:
            n = rng.choice([0, 1, 1, 2, 3, len(kws)])
            ops.append(['i', rng.choice(ids),
                        [rng.choice(kws) for _ in range(min(n, 12))],
                        rng.choice(['list', 'tuple', 'none'
                                    if n == 0 else 'list'])])
        elif r < .9:
            ops.append(['u', rng.choice(ids)])
        elif r < .95:
            ops.append(['t', rng.choice([1, 2, 3, 5, 64])])
        elif r < .98:
            ops.append(['o'])
        else:
            ops.append(['c'])
    return dict(fam=bits, ops=ops, fold=rng.random() < .5,
                threshold=rng.choice([1, 2, 3, 6, 64])), ids, kws


class Keyword(Harness):
    def make(self, case):
        from zope.index.keyword import KeywordIndex
        from zope.index.keyword import CaseInsensitiveKeywordIndex
        cls = CaseInsensitiveKeywordIndex if case['fold'] else KeywordIndex
        self.ix = cls(fam(case['fam'])) if case['fam'] == 64 else cls()
        self.ix.tree_threshold = case['threshold']
        self.norm = (lambda w: w.lower()) if case['fold'] else (lambda w: w)
        self.ref = {}

    def op(self, op):
        ix, ref = self.ix, self.ref
        if op[0] == 'i':
            seq = dict(list=list, tuple=tuple, none=lambda x: None)[
                op[3]](op[2])
            ix.index_doc(op[1], seq)
            kws = {self.norm(w) for w in op[2]}
            if kws:
                ref[op[1]] = kws
            else:
                ref.pop(op[1], None)
        elif op[0] == 'u':
            ix.unindex_doc(op[1])
            ref.pop(op[1], None)
        elif op[0] == 't':
            ix.tree_threshold = op[1]
        elif op[0] == 'o':
            ix.optimize()
        elif op[0] == 'c':
            ix.clear()
            ref.clear()

    def query(self, q, oper):
        want = {self.norm(w) for w in q}
        if not want:
            return []
        test = want.issubset if oper == 'and' else \
            (lambda ks: bool(want & ks))
        return sorted(d for d, ks in self.ref.items() if test(ks))


class C04(Keyword):
    id = 'C04'
    rule = ('random histories (index with repeated and empty keyword lists, '
            'unindex, clear, optimize, threshold changes) on both index '
            'classes and families, and/or queries in every accepted form '
            'after every few steps; non-trivial: a proper non-empty answer')

    def cases(self, rng, tier):
        for k in itertools.count():
            case, ids, kws = keyword_history(rng, big=k % 30 == 29)
            case['queries'] = [
                [[rng.choice(kws + ['nope']) for _ in range(
                    rng.choice([0, 1, 1, 2, 2, 3]))],
                 rng.choice(['and', 'or']),
                 rng.choice(['search', 'apply', 'dict', 'tuple', 'str',
                             'default'])]
                for _ in range(rng.choice([3, 8]))]
            yield case

    def ask(self, q, oper, form):
        ix = self.ix
        if form == 'tuple':
            return ix.search(tuple(q), oper)
        if form == 'str' and len(q) == 1:
            return ix.search(q[0], operator=oper)
        if form == 'dict':
            return ix.apply({'operator': oper, 'query': q})
        if form == 'default' and oper == 'and':
            return ix.apply({'query': q})
        if form == 'apply' and oper == 'and':
            return ix.apply(q)
        return ix.search(list(q), operator=oper)

    def run(self, case):
        self.make(case)
        nt = False
        every = max(1, len(case['ops']) // 6)
        for i, op in enumerate(case['ops']):
            self.op(op)
            if i % every == 0 or i == len(case['ops']) - 1:
                for q, oper, form in case['queries']:
                    want = self.query(q, oper)
                    got = self.ask(q, oper, form)
                    eq(sorted(got), want,
                       f'{form}({q!r}, {oper}) after step {i}')
                    nt |= 0 < len(want) < len(self.ref)
        refuses(TypeError, self.ix.search, ['a'], 'xor')
        refuses(TypeError, self.ix.index_doc, 1, 'a string')
        return nt


class C05(Keyword):
    id = 'C05'
    rule = ('histories as for C04, counts, has_doc and the search answers of '
            'a twin with another threshold and no optimize compared after '
            'every step; non-trivial: a document was re-indexed or removed')

    def cases(self, rng, tier):
        for k in itertools.count():
            case, ids, kws = keyword_history(rng, big=k % 30 == 29)
            case['ids'] = rng.sample(ids, min(len(ids), 8)) + [12345]
            case['kws'] = rng.sample(kws, min(len(kws), 5))
            yield case

    def run(self, case):
        self.make(case)
        twin = Keyword()
        twin.make(dict(case, threshold=1000))
        nt = False
        for i, op in enumerate(case['ops']):
            nt |= op[0] in 'iu' and op[1] in self.ref
            self.op(op)
            if op[0] not in 'to':
                twin.op(op)
            ref = self.ref
            at = f' after step {i}'
            eq(self.ix.documentCount(), len(ref), 'documentCount' + at)
            eq(self.ix.wordCount(), len(set().union(*ref.values())),
               'wordCount' + at)
            for d in case['ids']:
                eq(bool(self.ix.has_doc(d)), d in ref, f'has_doc({d})' + at)
            for w in case['kws']:
                for oper in ('and', 'or'):
                    eq(list(self.ix.search([w], oper)),
                       list(twin.ix.search([w], oper)),
                       f'{w!r} against a twin with threshold 1000' + at)
            # what the documents are posted under, and nothing else
            words = set().union(*ref.values())
            for w in words:
                eq(sorted(self.ix.search([w])),
                   sorted(d for d in ref if w in ref[d]),
                   f'documents of {w!r}' + at)
        return nt


# -- topic ---------------------------------------------------------------------

EXPRS = ['context > 3', 'context', 'True', 'False', '1 / context',
         'context.startswith("a")', 'len(context)', 'context == "a"',
         'undefined_name', 'context <', 'context["k"]', 'None', '0.0',
         '[0]', 'context in (1, 2, "b")']
OBJS = [0, 1, 2, 3, 4, 5, -1, 'a', 'ab', 'b', '', None, [], [0],
        {'k': 1}, {'k': 0}, 2.5]


class C06(Harness):
    id = 'C06'
    rule = ('random filters (some raising, some not even valid expressions) '
            'and histories of index_doc, re-index, unindex_doc, clearFilters, '
            'addFilter, delFilter; every filter and random queries compared '
            'after each step; non-trivial: some filter changed on re-index')

    def cases(self, rng, tier):
        for k in itertools.count():
            names = ['f1', 'f2', 'f3', 'f4'][:rng.randint(1, 4)]
            exprs = {n: rng.choice(EXPRS) for n in names}
            bits = rng.choice([32, 32, 64])
            ids = docid_pool(rng, bits, rng.choice([2, 5, 10]))
            objs = rng.sample(OBJS, rng.choice([3, 8]))
            ops = []
            for _ in range(rng.randint(1, 25)):
                r = rng.random()
                if r < .7:
                    ops.append(['i', rng.choice(ids), rng.choice(objs)])
                elif r < .88:
                    ops.append(['u', rng.choice(ids)])
                elif r < .93:
                    ops.append(['c'])
                elif r < .98:
                    ops.append(['a', rng.choice(names), rng.choice(EXPRS)])
                else:
                    ops.append(['d', rng.choice(names)])
            qs = [[[rng.choice(names + ['nope']) for _ in range(
                rng.choice([0, 1, 2, 3]))], rng.choice(['and', 'or']),
                rng.choice(['search', 'tuple', 'dict', 'str', 'apply'])]
                for _ in range(4)]
            yield dict(fam=bits, exprs=exprs, ops=ops, queries=qs)

    def run(self, case):
        from zope.index.topic import TopicIndex
        from zope.index.topic.filter import PythonFilteredSet
        f = fam(case['fam'])
        ix = TopicIndex(f) if case['fam'] == 64 else TopicIndex()
        exprs, ref = {}, {}
        nt = False

        def add(n, e):
            ix.addFilter(PythonFilteredSet(n, e, f))
            exprs[n], ref[n] = e, set()
        for n, e in sorted(case['exprs'].items()):
            add(n, e)
        for i, op in enumerate(case['ops']):
            if op[0] == 'i':
                ix.index_doc(op[1], op[2])
                for n in ref:
                    try:
                        m = bool(eval(exprs[n], {'context': op[2]}))
                    except Exception:
                        m = False
                    if m:
                        ref[n].add(op[1])
                    else:
                        nt |= op[1] in ref[n]
                        ref[n].discard(op[1])
            elif op[0] == 'u':
                ix.unindex_doc(op[1])
                for n in ref:
                    ref[n].discard(op[1])
            elif op[0] == 'c':
                ix.clearFilters()
                for n in ref:
                    ref[n].clear()
            elif op[0] == 'a':
                add(op[1], op[2])
            elif op[0] == 'd' and op[1] in ref:
                ix.delFilter(op[1])
                del ref[op[1]], exprs[op[1]]
            for n in ref:
                eq(sorted(ix.search([n])), sorted(ref[n]),
                   f'filter {exprs[n]!r} after step {i}')
            for q, oper, form in case['queries']:
                named = [ref[n] for n in set(q) if n in ref]
                want = set() if not named else (
                    set.intersection if oper == 'and' else set.union)(*named)
                if form == 'tuple':
                    got = ix.search(tuple(q), oper)
                elif form == 'str' and len(q) == 1:
                    got = ix.search(q[0], oper)
                elif form == 'dict':
                    got = ix.apply({'operator': oper, 'query': list(q)})
                elif form == 'apply' and oper == 'and':
                    got = ix.apply(list(q))
                else:
                    got = ix.search(list(q), operator=oper)
                eq(sorted(got), sorted(want), f'{form}({q!r}, {oper}) after '
                   f'step {i}')
        refuses(TypeError, ix.search, ['f1'], 'xor')
        return nt


# -- nbest ---------------------------------------------------------------------

class Item:
    """Items need not be comparable or hashable."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        raise Fail('NBest compared items')
    __lt__ = __gt__ = __le__ = __ge__ = __eq__
    __hash__ = None

    def __repr__(self):
        return f'i{self.n}'


class C07(Harness):
    id = 'C07'
    rule = ('random add/addmany/pop_smallest/getbest sequences with many ties, '
            'capacities 1 to 40; non-trivial: an item was discarded')

    def cases(self, rng, tier):
        for k in itertools.count():
            cap = rng.choice([1, 1, 2, 3, 5, 10, 40])
            sc = rng.choice([[0], [0, 1], [-2, -1, 0, 1, 2],
                             list(range(100)), [.5, 1.5, -2.25, 0, 1e9]])
            ops = []
            for _ in range(rng.randint(1, rng.choice([5, 20, 80]))):
                r = rng.random()
                if r < .5:
                    ops.append(['a', rng.choice(sc)])
                elif r < .8:
                    ops.append(['m', [rng.choice(sc) for _ in range(
                        rng.choice([0, 1, 2, 5, cap + 3]))],
                        rng.choice(['list', 'iter'])])
                else:
                    ops.append(['p'])
            yield dict(cap=cap, ops=ops)

    def run(self, case):
        from zope.index.nbest import NBest
        n = case['cap']
        nb = NBest(n)
        eq(nb.capacity(), n, 'capacity')
        refuses(ValueError, NBest, 0)
        kept, count = {}, 0       # item number -> score
        nt = False
        for i, op in enumerate(case['ops']):
            at = f' after step {i}'
            if op[0] in 'am':
                scores = [op[1]] if op[0] == 'a' else op[1]
                pairs = []
                for s in scores:
                    pairs.append((Item(count), s))
                    kept[count] = s
                    count += 1
                if op[0] == 'a':
                    eq(nb.add(*pairs[0]), None, 'add')
                else:
                    nb.addmany(iter(pairs) if op[2] == 'iter' else pairs)
                size = min(n, len(kept))
                nt |= size < len(kept)
                want = sorted(kept.values(), reverse=True)[:size]
                best = nb.getbest()
                eq([s for _, s in best], want, 'scores' + at)
                eq(len({x.n for x, _ in best}), len(best), 'distinct' + at)
                for x, s in best:
                    check(x.n in kept and kept[x.n] == s,
                          f'{x!r} with score {s!r}, which it does not have'
                          + at)
                kept = {x.n: s for x, s in best}
            else:
                if kept:
                    x, s = nb.pop_smallest()
                    eq(s, min(kept.values()), 'lowest score' + at)
                    check(x.n in kept and kept[x.n] == s, f'{x!r} {s!r}' + at)
                    del kept[x.n]
                else:
                    refuses(IndexError, nb.pop_smallest)
            eq(len(nb), len(kept), 'len' + at)
            best = nb.getbest()
            eq({x.n: s for x, s in best}, kept, 'contents' + at)
            eq([s for _, s in best], sorted(kept.values(), reverse=True),
               'order' + at)
        return nt


# -- setops --------------------------------------------------------------------

class C08(Harness):
    id = 'C08'
    rule = ('0 to 12 mappings (Bucket or BTree, both families, empty ones '
            'too) with exactly representable scores and weights, in the given '
            'and in permuted order; non-trivial: two or more overlap')

    def cases(self, rng, tier):
        for k in itertools.count():
            bits = rng.choice([32, 32, 64])
            ids = docid_pool(rng, bits, rng.choice([3, 6, 15, 200]))
            maps = []
            for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 12])):
                p = rng.choice([.1, .5, .9, 1.0])
                m = [[d, rng.choice([-8, -1, 1, 2, 3, 10, 64]) / 8]
                     for d in ids if rng.random() < p]
                maps.append([m, rng.choice([0, 1, 1, 1, 2, 3, .5, -1, 7, 1.5, 1.25,
                                         .25, -.5, 2.5, 1.75]),
                             rng.choice(['Bucket', 'BTree'])])
            yield dict(fam=bits, items=maps, perm=rng.randint(0, 10 ** 6),
                       default=bits == 32 and rng.random() < .5,
                       none=rng.random() < .2)

    def run(self, case):
        import random
        from zope.index.text.setops import mass_weightedUnion
        from zope.index.text.setops import mass_weightedIntersection
        f = fam(case['fam'])
        L = [(getattr(f.IF, k)([tuple(p) for p in m]), w)
             for m, w, k in case['items']]
        ref = [(dict(map(tuple, m)), w) for m, w, _ in case['items']]
        perm = list(range(len(L)))
        random.Random(case['perm']).shuffle(perm)
        alldocs = set().union(*[m for m, _ in ref])
        union = {d: sum(w * m[d] for m, w in ref if d in m) for d in alldocs}
        inter = {d: s for d, s in union.items()
                 if all(d in m for m, _ in ref)}
        kw = () if case['default'] else (f,)
        before = [(list(m.items()), w) for m, w in L]
        for order in (range(len(L)), perm):
            for name, fn, want in (
                    ('union', mass_weightedUnion, union),
                    ('intersection', mass_weightedIntersection, inter)):
                arg = [L[i] for i in order]
                if case['none'] and name == 'intersection':
                    arg.insert(len(arg) // 2, (None, 1))
                keep = list(arg)
                r = fn(arg, *kw)
                eq(dict(r.items()), want, f'{name} in order {list(order)}')
                eq(len(arg), len(keep), f'{name}: length of the argument')
                eq([(list(m.items()), w) for m, w in L], before,
                   f'inputs after {name}')
        return len(L) > 1 and bool(inter or len(union) < sum(
            len(m) for m, _ in ref))


# -- widcode -------------------------------------------------------------------

EDGES = sorted({max(0, b + d) for b in (0, 0x7f, 0x80, 0x3fff, 0x4000,
                                        2 ** 21, 2 ** 28 - 3)
                for d in (-2, -1, 0, 1, 2)})


class C09(Harness):
    id = 'C09'
    rule = ('ids at and around every length boundary, all ids below 0x8000 '
            'and random ones, in lists of every short length; refusal from '
            '2**28; non-trivial: two or more ids')

    def wid(self, rng):
        r = rng.random()
        if r < .4:
            return rng.choice(EDGES)
        return rng.randrange(2 ** rng.choice([7, 8, 14, 15, 21, 22, 28]))

    def cases(self, rng, tier):
        yield dict(range=[0, 0x8000])
        for e in EDGES:
            yield dict(range=[e, min(e + 4, 2 ** 28)])
        for e in (2 ** 28, 2 ** 28 + 1, 2 ** 28 + 2 ** 14, 2 ** 29, 2 ** 35,
                  2 ** 32, 2 ** 28 + 0x3fff, 2 ** 31 - 1):
            yield dict(refuse=e)
        for k in itertools.count():
            if k % 50 == 49:
                a = rng.randrange(2 ** 28)
                yield dict(range=[a, min(2 ** 28, a + 3000)])
            n = rng.choice([0, 1, 2, 2, 3, 5, 30])
            yield dict(items=[self.wid(rng) for _ in range(n)],
                       more=[self.wid(rng) for _ in range(rng.choice(
                           [0, 1, 3]))])

    def run(self, case):
        from zope.index.text import widcode
        enc, dec = widcode.encode, widcode.decode
        if 'refuse' in case:
            try:
                got = enc([1, case['refuse']])
            except Exception:
                return True
            raise Fail(f'{case["refuse"]:#x} encoded as {got!r}')
        if 'range' in case:
            seen = set()
            for w in range(*case['range']):
                s = enc([w])
                eq(list(dec(s)), [w], f'decode(encode([{w}]))')
                self.shape(w, s)
                seen.add(s)
            return True
        a, b = case['items'], case['more']
        s = enc(a)
        eq(list(dec(s)), a, f'decode(encode({a}))')
        eq(list(dec(enc(a + b))), a + b, f'decode(encode({a + b}))')
        eq(enc(a + b), s + enc(b), f'encode({a} + {b})')
        eq(enc(tuple(a)), s, 'encoding of a tuple')
        check(a == b or s != enc(b), 'two lists with one encoding')
        for w in a:
            self.shape(w, enc([w]))
        return len(a + b) > 1

    def shape(self, w, s):
        check(isinstance(s, str) and 1 <= len(s) <= 4 and
              0x80 <= ord(s[0]) <= 0xff and all(ord(c) < 0x80
                                                for c in s[1:]),
              f'encoding of {w}: {s!r}')


# -- rice ----------------------------------------------------------------------

class C10(Harness):
    id = 'C10'
    rule = ('every m from 0 to 16, values around the powers of two and the '
            'unary/binary boundary, lists up to 60; increasing lists for the '
            'delta code; refusals; non-trivial: two or more values')
    shrinkable = ('items', 'deltas')

    def cases(self, rng, tier):
        for m in (-1, -5, 17, 18, 100):
            yield dict(badm=m)
        for m in range(17):
            for n in (1, 2, 3):
                yield dict(m=m, items=list(range(n, n + 40)))
            for bad in (0, -1, -100):
                yield dict(m=m, items=[1, 5], bad=bad)
        for k in itertools.count():
            if rng.random() < .3:
                v = rng.choice([0, 1, -5, 10 ** 6, rng.randrange(-99, 999)])
                l = [v]
                for _ in range(rng.choice([0, 1, 2, 3, 10, 40])):
                    v += rng.choice([1, 1, 2, 63, 64, 65, 128, 500,
                                     rng.randint(1, 3000)])
                    l.append(v)
                yield dict(deltas=l)
            else:
                m = rng.randint(0, 16)
                p = 1 << m
                yield dict(m=m, items=[rng.choice([
                    1, 2, p, p + 1, max(1, p - 1), 2 * p, 2 * p + 1, 3 * p,
                    rng.randint(1, 9 * p), rng.randint(1, p)])
                    for _ in range(rng.choice([0, 1, 2, 5, 20, 60]))])

    def shrinks(self, case):
        for k in ('items', 'deltas'):
            if k in case:
                for i in range(len(case[k])):
                    c = dict(case)
                    c[k] = case[k][:i] + case[k][i + 1:]
                    if c[k] or k == 'items':
                        yield c

    def run(self, case):
        from zope.index.text import ricecode
        if 'badm' in case:
            return refuses(ValueError, ricecode.RiceCode, case['badm'])
        if 'deltas' in case:
            l = case['deltas']
            keep = list(l)
            e = ricecode.encode_deltas(l)
            eq(ricecode.decode_deltas(*e), keep, 'decode_deltas')
            eq(l, keep, 'the list given to encode_deltas')
            return len(l) > 1
        m, l = case['m'], case['items']
        c = ricecode.RiceCode(m)
        for i, v in enumerate(l):
            c.append(v)
            if i % 9 == 0:
                eq(c.tolist(), l[:i + 1], f'tolist after {i + 1}, m={m}')
        eq(c.tolist(), l, f'tolist, m={m}')
        eq(c.tolist(), l, f'second tolist, m={m}')
        eq(len(c), len(l), f'len, m={m}')
        if 'bad' in case:
            refuses(ValueError, c.append, case['bad'])
        e = ricecode.encode(m, list(l))
        eq(e.tolist(), l, f'encode({m}).tolist()')
        eq(len(e), len(l), f'len(encode({m}))')
        return len(l) > 1


ALL = [C01, C02, C03, C04, C05, C06, C07, C08, C09, C10]
