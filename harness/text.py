"""Executable contracts: lexicon, text indexes, query language, scores."""
import itertools
import math
import os
import random
import sys

from common import Harness, Fail, check, eq, close, ROOT
from simple import fam, docid_pool, refuses

STOP = ['the', 'and', 'of', 'is', 'not', 'to']
WORDS = ['foo', 'bar', 'baz', 'qux', 'fo', 'foob', 'foobar', 'été', 'zope9',
         'x', '_y', 'ab', 'abc', 'ba']
_pure = []


def pure_okapi():
    """okapiindex imported once more, with the Python scorer."""
    if not _pure:
        import importlib.util
        path = os.path.join(ROOT, 'zope/index/text/okapiindex.py')
        old = os.environ.get('PURE_PYTHON')
        os.environ['PURE_PYTHON'] = '1'
        try:
            spec = importlib.util.spec_from_file_location(
                'pure_okapiindex', path)
            mod = importlib.util.module_from_spec(spec)
            sys.modules['pure_okapiindex'] = mod
            spec.loader.exec_module(mod)
        finally:
            if old is None:
                del os.environ['PURE_PYTHON']
            else:
                os.environ['PURE_PYTHON'] = old
        _pure.append(mod)
    return _pure[0].OkapiIndex


def index_class(name):
    if name == 'cosine':
        from zope.index.text.cosineindex import CosineIndex
        return CosineIndex
    if name == 'pure':
        return pure_okapi()
    from zope.index.text.okapiindex import OkapiIndex
    return OkapiIndex


class Upper:
    """Pipeline element that duplicates words containing 'b'."""

    def process(self, lst):
        r = []
        for w in lst:
            r.append(w)
            if 'b' in w:
                r.append(w + w)
        return r


class Rev:
    def process(self, lst):
        return [w[::-1] for w in lst]


class RevGlob(Rev):
    def processGlob(self, lst):
        return [w[::-1] for w in lst]


def pipeline(name):
    from zope.index.text import lexicon as L
    from zope.index.text.htmlsplitter import HTMLWordSplitter
    return {
        'default': lambda: [L.Splitter(), L.CaseNormalizer(),
                            L.StopWordRemover()],
        'split': lambda: [L.Splitter()],
        'none': lambda: [],
        'html': lambda: [HTMLWordSplitter(), L.StopWordRemover()],
        'single': lambda: [L.Splitter(), L.CaseNormalizer(),
                           L.StopWordAndSingleCharRemover()],
        'order': lambda: [L.Splitter(), Rev(), Upper()],
        'order2': lambda: [L.Splitter(), Upper(), Rev()],
        'late': lambda: [L.Splitter(), L.StopWordRemover(),
                         L.CaseNormalizer()],
        'revglob': lambda: [L.Splitter(), RevGlob(), L.CaseNormalizer()],
    }[name]()


STOPWORDS = frozenset(
    'a and are as at be but by for if in into is it no not of on or such that '
    'the their then there these they this to was will with'.split())


def stopwords():
    return STOPWORDS


def is_word(c):
    return c == '_' or c.isalnum()


def split(text, glob=False):
    out, cur = [], ''
    for c in text:
        if is_word(c) or (glob and cur and c in '*?'):
            cur += c
        elif cur:
            out.append(cur)
            cur = ''
    if cur:
        out.append(cur)
    return out


def strip_markup(text):
    """The HTML splitter's view: tags and named entities become blanks."""
    out, i, n = '', 0, len(text)
    while i < n:
        c = text[i]
        if c == '<':
            j = i + 1
            while j < n and text[j] not in '<>':
                j += 1
            if j < n and text[j] == '>':
                out += ' '
                i = j + 1
                continue
        elif c == '&':
            j = i + 1
            while j < n and text[j] in ('abcdefghijklmnopqrstuvwxyz'
                                        'ABCDEFGHIJKLMNOPQRSTUVWXYZ'):
                j += 1
            if j > i + 1 and j < n and text[j] == ';':
                out += ' '
                i = j + 1
                continue
        out += c
        i += 1
    return out


def ref_pipeline(name, text, glob=False):
    """The words of a text (a string or a list of strings)."""
    lst = [text] if isinstance(text, str) else list(text)

    def sp(lst):
        return [w for s in lst for w in split(s, glob)]

    def low(lst):
        return [w.lower() for w in lst]

    def stop(lst):
        return [w for w in lst if w not in stopwords()]
    if name == 'none':
        return lst
    if name == 'html':
        return stop([w for s in lst
                     for w in split(strip_markup(s.lower()), glob)])
    lst = sp(lst)
    return {
        'default': lambda: stop(low(lst)),
        'split': lambda: lst,
        'single': lambda: [w for w in stop(low(lst))
                           if not (len(w) == 1 and ord(w) < 255)],
        'order': lambda: Upper().process(Rev().process(lst)),
        'order2': lambda: Rev().process(Upper().process(lst)),
        'late': lambda: low(stop(lst)),
        'revglob': lambda: low([w[::-1] for w in lst]),
    }[name]()


# -- lexicon -------------------------------------------------------------------

def some_text(rng, words, n=None, stop=True):
    n = rng.choice([0, 1, 2, 3, 5, 9]) if n is None else n
    out = []
    for _ in range(n):
        w = rng.choice(words)
        if stop and rng.random() < .15:
            w = rng.choice(STOP)
        if rng.random() < .15:
            w = w.upper() if rng.random() < .5 else w.title()
        out.append(w)
    return ''.join(w + rng.choice([' ', ' ', '\n', ', ', '-', ' ']) for w in out)


class C11(Harness):
    id = 'C11'
    rule = ('random sequences of source texts, term look-ups, globs and '
            'parseTerms under several pipelines; the whole numbering compared '
            'after every step; non-trivial: a known and a new word in a step')

    def cases(self, rng, tier):
        for k in itertools.count():
            pipe = rng.choice(['default', 'split', 'none', 'single', 'html'])
            ws = rng.sample(WORDS, rng.choice([3, 8, len(WORDS)]))
            ops = []
            for _ in range(rng.randint(1, 15)):
                r = rng.random()
                if pipe == 'none':
                    # any string may be a word; equal ones are not one object
                    t = [''.join(list(rng.choice(ws + [
                        'x ', ' x', ' ', 'X', 'x\n', 'a b', '', '\u0130',
                        'x' * 30])))
                         for _ in range(rng.choice([0, 1, 4]))]
                elif r < .2:
                    t = [some_text(rng, ws) for _ in range(rng.choice(
                        [0, 1, 2]))]
                else:
                    t = some_text(rng, ws)
                r = rng.random()
                if r < .5:
                    ops.append(['s', t])
                elif r < .55:
                    ops.append(['s', None])
                elif r < .75:
                    ops.append(['t', t])
                elif r < .85:
                    ops.append(['p', t])
                elif r < .95:
                    ops.append(['g', rng.choice(ws)[:2] + rng.choice(
                        ['*', '?', '', '?*'])])
                else:
                    ops.append(['w', rng.choice(ws + ['nope'])])
            yield dict(pipe=pipe, ops=ops)

    def run(self, case):
        from zope.index.text.lexicon import Lexicon
        pipe = case['pipe']
        lex = Lexicon(*pipeline(pipe))
        known = {}
        nt = False
        for i, op in enumerate(case['ops']):
            at = f' after step {i}'
            if op[0] == 's':
                words = [] if op[1] is None else ref_pipeline(pipe, op[1])
                if op[1] is None and pipe == 'none':
                    words = ['']
                wids = list(lex.sourceToWordIds(op[1]))
                eq(len(wids), len(words), 'number of ids' + at)
                old = [w in known for w in words]
                nt |= any(old) and not all(old)
                for w, wid in zip(words, wids):
                    if w in known:
                        eq(wid, known[w], f'id of {w!r}' + at)
                    else:
                        check(type(wid) is int and wid > 0 and
                              wid not in known.values(),
                              f'id {wid!r} for the new word {w!r}' + at)
                        known[w] = wid
            elif op[0] == 't':
                words = ref_pipeline(pipe, op[1])
                eq(list(lex.termToWordIds(op[1])),
                   [known.get(w, 0) for w in words], f'termToWordIds' + at)
            elif op[0] == 'p':
                eq(list(lex.parseTerms(op[1])),
                   ref_pipeline(pipe, op[1], glob=True), 'parseTerms' + at)
            elif op[0] == 'g':
                if op[1][0] not in '*?':
                    lex.globToWordIds(op[1])
            else:
                eq(lex.get_wid(op[1]), known.get(op[1], 0), 'get_wid' + at)
            eq(lex.wordCount(), len(known), 'wordCount' + at)
            eq(sorted(lex.words()), sorted(known), 'words' + at)
            eq(sorted(lex.wids()), sorted(known.values()), 'wids' + at)
            eq(dict(lex.items()), known, 'items' + at)
            for w, wid in known.items():
                eq(lex.get_wid(w), wid, f'get_wid({w!r})' + at)
                eq(lex.get_word(wid), w, f'get_word({wid})' + at)
        refuses(KeyError, lex.get_word, max(known.values(), default=0) + 5)
        return nt


def glob_match(pat, word):
    """* any run, ? one character; by dynamic programming."""
    row = [True] + [False] * len(word)
    for p in pat:
        if p == '*':
            new, on = [], False
            for r in row:
                on = on or r
                new.append(on)
        else:
            new = [False] + [row[j] and p in ('?', word[j])
                             for j in range(len(word))]
        row = new
    return row[-1]


class C12(Harness):
    id = 'C12'
    rule = ('words and patterns over letters, line breaks and every regular '
            'expression metacharacter, patterns often derived from a word; '
            'non-trivial: some word matches and another with the prefix not')

    ALPHA = 'aabbc.+[]()^$\\|{}\n-é𝒳 '

    def cases(self, rng, tier):
        for k in itertools.count():
            alpha = rng.choice(['ab', 'abc', self.ALPHA, 'a.+\n'])
            words = []
            stem = ''.join(rng.choice(alpha) for _ in range(rng.choice(
                [0, 1, 2])))
            for _ in range(rng.choice([1, 4, 12, 40])):
                words.append((stem if rng.random() < .6 else '') + ''.join(
                    rng.choice(alpha) for _ in range(rng.randint(0, 5))))
            pats = []
            for _ in range(6):
                w = list(rng.choice(words))
                for j in range(len(w)):
                    r = rng.random()
                    if r < .2:
                        w[j] = '?'
                    elif r < .35:
                        w[j] = '*'
                if rng.random() < .5:
                    w.append(rng.choice('*?'))
                pats.append(''.join(w))
            pats.append(rng.choice(words))
            pats.append('a' + rng.choice(['*', '?', '*a', '**', '?*', '*?']))
            yield dict(words=words, queries=pats)

    def run(self, case):
        from zope.index.text.lexicon import Lexicon
        from zope.index.text.parsetree import QueryError
        lex = Lexicon()
        lex.sourceToWordIds(case['words'])
        ws = sorted(set(case['words']))
        nt = False
        for p in case['queries']:
            if p[:1] in ('*', '?'):
                refuses(QueryError, lex.globToWordIds, p)
                continue
            got = list(lex.globToWordIds(p))
            eq(len(set(got)), len(got), f'repeated ids for {p!r}')
            glob = '*' in p or '?' in p
            want = [w for w in ws if (glob_match(p, w) if glob else w == p)]
            eq(sorted(lex.get_word(i) for i in got), want,
               f'words matching {p!r}')
            n = len(p.split('*')[0].split('?')[0])
            nt |= bool(want) and any(
                w not in want and w[:n] == p[:n] for w in ws)
        return nt


# -- text index histories ------------------------------------------------------

PAD = [0, 0, 0, 0x7c, 0x7e, 0x80, 0x3ff8, 0x3ffe, 0x1ffffc]


class Text(Harness):
    """Replays a history on a text index and on a dict of word lists."""
    kinds = ['okapi', 'okapi', 'pure', 'cosine']
    pads = PAD

    def history(self, rng, big=False, steps=None):
        bits = rng.choice([32, 32, 64])
        ws = rng.sample(WORDS, rng.choice([2, 4, len(WORDS)]))
        ids = docid_pool(rng, bits, rng.choice([14, 30]) if big
                         else rng.choice([1, 3, 6]))
        ops = []
        for _ in range(rng.randint(1, steps or rng.choice(
                [3, 10, 30]) * (3 if big else 1))):
            r = rng.random()
            if r < .72:
                t = some_text(rng, ws)
                if rng.random() < .1:
                    t = [t, some_text(rng, ws)]
                elif rng.random() < .03:
                    t = some_text(rng, ws, n=300)
                ops.append(['i', rng.choice(ids), t])
            elif r < .96:
                ops.append(['u', rng.choice(ids)])
            elif r < .98:
                ops.append(['c'])
            else:       # another index sharing the lexicon learns a word
                ops.append(['l', rng.choice(WORDS) + ' other'])
        return dict(fam=bits, kind=rng.choice(self.kinds), ops=ops,
                    pad=rng.choice(self.pads) if rng.random() < .35 else 0,
                    ), ids, ws

    def make(self, case, kind=None, ops=None):
        from zope.index.text.lexicon import Lexicon
        self.lex = Lexicon(*pipeline('default'))
        if case.get('pad'):
            # as if many words had been added (and are now unused)
            self.lex.wordCount.change(case['pad'])
        cls = index_class(kind or case['kind'])
        self.ix = cls(self.lex, fam(64)) if case['fam'] == 64 else \
            cls(self.lex)
        self.ref = {}

    def op(self, op):
        if op[0] == 'i':
            self.ix.index_doc(op[1], op[2])
            self.ref[op[1]] = ref_pipeline('default', op[2])
        elif op[0] == 'u':
            self.ix.unindex_doc(op[1])
            self.ref.pop(op[1], None)
        elif op[0] == 'c':
            self.ix.clear()
            self.ref.clear()
        elif op[0] == 'l':
            self.lex.sourceToWordIds(op[1])

    def steps(self, case, f, every=None):
        every = every or max(1, len(case['ops']) // 5)
        for i, op in enumerate(case['ops']):
            self.op(op)
            if i % every == 0 or i == len(case['ops']) - 1:
                f(f' after step {i}')


class C13(Text):
    id = 'C13'
    rule = ('random histories on Okapi (C and Python scorer) and Cosine '
            'indexes with re-indexing, empty texts, shared lexicon, word ids '
            'of one to three bytes; one- and many-word terms after every few '
            'steps; non-trivial: a proper non-empty answer')

    def cases(self, rng, tier):
        for k in itertools.count():
            case, ids, ws = self.history(rng, big=k % 6 == 5)
            qs = [some_text(rng, ws + ['nope', 'other'], n=rng.choice(
                [0, 1, 1, 1, 2, 3])) for _ in range(5)] + ['the']
            case['queries'] = qs
            yield case

    def run(self, case):
        self.make(case)
        self.nt = False

        def queries(at):
            for q in case['queries']:
                ws = set(ref_pipeline('default', q))
                got = self.ix.search(q)
                if not ws:
                    eq(got, None, f'search({q!r})' + at)
                    continue
                check(got is not None, f'search({q!r}) gave None' + at)
                want = sorted(d for d, t in self.ref.items() if ws & set(t))
                eq(sorted(got.keys()), want, f'search({q!r})' + at)
                self.nt |= 0 < len(want) < len(self.ref)
        self.steps(case, queries)
        return self.nt


class C14(Text):
    id = 'C14'
    rule = ('random histories as for C13 crossing the dictionary cutoff; all '
            'counts and word lists after every few steps, then every score '
            'compared with a freshly built index; non-trivial: something was '
            're-indexed, unindexed or cleared')

    def cases(self, rng, tier):
        for k in itertools.count():
            yield self.history(rng, big=k % 3 == 2)[0]

    def run(self, case):
        self.make(case)
        nt = False
        for i, op in enumerate(case['ops']):
            nt |= op[0] == 'c' or op[0] in 'iu' and op[1] in self.ref
            self.op(op)
            at = f' after step {i}'
            ref, ix = self.ref, self.ix
            eq(ix.documentCount(), len(ref), 'documentCount' + at)
            eq(ix.wordCount(), len(set().union(*ref.values())),
               'wordCount' + at)
            for d in {o[1] for o in case['ops'] if o[0] in 'iu'} | {424242}:
                eq(bool(ix.has_doc(d)), d in ref, f'has_doc({d})' + at)
            for d, ws in ref.items():
                eq([self.lex.get_word(w) for w in ix.get_words(d)], ws,
                   f'get_words({d})' + at)
        fresh = Text()
        fresh.make(case)
        for d in sorted(self.ref):
            fresh.ix.index_doc(d, ' '.join(self.ref[d]))
        for w in sorted(set().union(*self.ref.values())):
            a, b = dict(self.ix.search(w)), dict(fresh.ix.search(w))
            eq(sorted(a), sorted(b), f'documents of {w!r} in a fresh index')
            for d in b:
                close(a[d], b[d], f'score of {d} for {w!r}, against a fresh '
                      'index')
            close(self.ix.query_weight([w]), fresh.ix.query_weight([w]),
                  f'query weight of {w!r}, against a fresh index')
        return nt


class C15(Text):
    id = 'C15'
    rule = ('texts over few words, word ids around the encoding boundaries, '
            'phrases cut from the texts, altered or invented; non-trivial: a '
            'document has all words of a phrase that it does not contain')
    pads = [0, 0x78, 0x7c, 0x7e, 0x3ff4, 0x3ff8, 0x3ffe, 0x4080, 0x1ffff8,
            0x1ffffd, 0x204080]

    def cases(self, rng, tier):
        for k in itertools.count():
            case, ids, ws = self.history(rng, big=k % 6 == 5, steps=12)
            if rng.random() < .5:
                case['pad'] = rng.choice(self.pads)
            qs = []
            texts = [ref_pipeline('default', o[2]) for o in case['ops']
                     if o[0] == 'i'] or [['x']]
            for _ in range(8):
                t = rng.choice(texts) or ['x']
                i = rng.randrange(len(t))
                p = t[i:i + rng.randint(1, 4)]
                r = rng.random()
                if r < .3:
                    p = p[::-1]
                elif r < .5:
                    p = [rng.choice(ws) for _ in range(rng.randint(1, 3))]
                elif r < .6:
                    p = p + ['nope']
                qs.append(' '.join(p))
            case['queries'] = qs
            yield case

    def run(self, case):
        self.make(case)
        self.nt = False

        def queries(at):
            for q in case['queries']:
                ws = ref_pipeline('default', q)
                if not ws:
                    continue
                n = len(ws)
                want = sorted(d for d, t in self.ref.items() if any(
                    t[i:i + n] == ws for i in range(len(t) - n + 1)))
                got = self.ix.search_phrase(q)
                eq(sorted(got.keys()), want, f'search_phrase({q!r})' + at)
                self.nt |= any(set(ws) <= set(t) for d, t in self.ref.items()
                               if d not in want)
        self.steps(case, queries)
        return self.nt


# -- boolean queries -----------------------------------------------------------

def random_tree(rng, words, depth, nots=True):
    r = rng.random()
    if depth == 0 or r < .3:
        k = rng.random()
        if k < .6:
            return ['ATOM', rng.choice(words)]
        if k < .75:
            return ['ATOM', rng.choice(STOP)]
        if k < .9:
            return ['PHRASE', [rng.choice(words) for _ in range(2)]]
        return ['GLOB', rng.choice(words)[:1] + '*']
    n = rng.choice([1, 2, 2, 3, 4])
    if r < .6:
        return ['OR', [random_tree(rng, words, depth - 1) for _ in range(n)]]
    kids = [random_tree(rng, words, depth - 1) for _ in range(n)]
    if nots:
        kids += [['NOT', random_tree(rng, words, depth - 1)] for _ in range(
            rng.choice([0, 0, 1, 2]))]
    return ['AND', kids]


def build_tree(t):
    from zope.index.text import parsetree as P
    cls = dict(ATOM=P.AtomNode, PHRASE=P.PhraseNode, GLOB=P.GlobNode,
               AND=P.AndNode, OR=P.OrNode, NOT=P.NotNode)[t[0]]
    if t[0] in ('AND', 'OR'):
        return cls([build_tree(k) for k in t[1]])
    if t[0] == 'NOT':
        return cls(build_tree(t[1]))
    return cls(t[1])


class C16(Text):
    id = 'C16'
    rule = ('random trees to depth 4 (built as nodes, or written out as a '
            'query string and parsed) over a random index; documents from the '
            'texts, scores from the scores of the leaves; non-trivial: an '
            'operator and a proper non-empty answer')
    shrinkable = ('ops', 'queries')

    def cases(self, rng, tier):
        for k in itertools.count():
            case, ids, ws = self.history(rng, big=k % 4 == 3, steps=14)
            case['pad'] = 0
            ws = [w for w in ws if w not in ('x',)] + ['nope']
            case['queries'] = [random_tree(rng, ws, rng.choice(
                [0, 1, 2, 2, 3, 4])) for _ in range(5)]
            yield case

    def shrinks(self, case):
        yield from super().shrinks(case)
        for i, q in enumerate(case['queries']):
            for s in self.subtrees(q):
                c = dict(case)
                c['queries'] = case['queries'][:i] + [s] + \
                    case['queries'][i + 1:]
                yield c

    def subtrees(self, t):
        if t[0] in ('AND', 'OR'):
            yield from (k for k in t[1] if k[0] != 'NOT')
            for i in range(len(t[1])):
                rest = t[1][:i] + t[1][i + 1:]
                if rest:
                    yield [t[0], rest]
                for s in self.subtrees(t[1][i]):
                    yield [t[0], t[1][:i] + [s] + t[1][i + 1:]]
        elif t[0] == 'NOT':
            for s in self.subtrees(t[1]):
                if s[0] != 'NOT':
                    yield ['NOT', s]

    def leaf(self, t):
        """Documents from the texts; scores as the index reports them."""
        kind, v = t
        if kind == 'PHRASE':
            ws = ref_pipeline('default', v)
            n = len(ws)
            want = {d for d, x in self.ref.items() if any(
                x[i:i + n] == ws for i in range(len(x) - n + 1))}
            got = self.ix.search_phrase(v)
        elif kind == 'GLOB':
            want = {d for d, x in self.ref.items()
                    if any(w.startswith(v[:-1]) for w in x)}
            got = self.ix.search_glob(v)
        else:
            ws = ref_pipeline('default', v)
            got = self.ix.search(v)
            if not ws:
                return None
            want = {d for d, x in self.ref.items() if ws[0] in x}
        eq(sorted(got.keys()), sorted(want), f'documents of {t}')
        return dict(got.items())

    def value(self, t):
        if t[0] in ('ATOM', 'PHRASE', 'GLOB'):
            return self.leaf(t)
        pos = [self.value(k) for k in t[1] if k[0] != 'NOT']
        pos = [p for p in pos if p is not None]
        neg = [self.value(k[1]) for k in t[1] if k[0] == 'NOT']
        docs = set()
        if pos:
            docs = set(pos[0])
            for p in pos[1:]:
                docs = docs & set(p) if t[0] == 'AND' else docs | set(p)
        for n in neg:
            docs -= set(n or ())
        return {d: sum(p[d] for p in pos if d in p) for d in docs}

    def run(self, case):
        self.make(case)
        for op in case['ops']:
            self.op(op)
        nt = False
        for q in case['queries']:
            want = self.value(q)
            tree = build_tree(q)
            shown = repr(tree)
            for again in ('', ' again'):
                got = tree.executeQuery(self.ix)
                if want is None:
                    eq(got, None, f'{shown}')
                    continue
                eq(sorted(got.keys()), sorted(want), f'documents of {shown}'
                   + again)
                for d, s in want.items():
                    close(got[d], s, f'score of {d} for {shown}' + again,
                          1e-4)
                nt |= 0 < len(want) < len(self.ref) and q[0] in ('AND', 'OR')
            eq(repr(tree), shown, 'the tree after executing it')
        from zope.index.text.parsetree import QueryError, NotNode, AtomNode
        refuses(QueryError, NotNode(AtomNode('foo')).executeQuery, self.ix)
        return nt


class RefError(Exception):
    pass


class RefParser:
    """The documented grammar, written independently of the parser: result
    is a boolean formula over atoms, or None when only stop words are left."""

    def __init__(self, words_of, is_glob):
        self.words_of, self.is_glob = words_of, is_glob

    def tokenize(self, q):
        out, i, n = [], 0, len(q)

        def stretch(j):
            while j < n and not q[j].isspace() and q[j] not in '()"':
                j += 1
            return j

        def quoted(j):
            if j < n and q[j] == '"':
                e = q.find('"', j + 1)
                if e >= 0:
                    return e + 1
            return None
        while i < n:
            c = q[i]
            if c in '()':
                out.append(c)
                i += 1
                continue
            e = quoted(i + 1) if c == '-' else quoted(i)
            if e is None:
                e = stretch(i)
            if e == i:      # white space or an unpaired quote
                i += 1
                continue
            out.append(q[i:e])
            i = e
        return out

    def parse(self, q):
        self.toks = self.tokenize(q)
        self.i = 0
        self.ignored = []
        r = self.either()
        if self.i < len(self.toks) or r is None:
            raise RefError
        return r

    def kind(self):
        if self.i >= len(self.toks):
            return 'EOF'
        t = self.toks[self.i].upper()
        return t if t in ('AND', 'OR', 'NOT', '(', ')') else 'ATOM'

    def take(self, k):
        if self.kind() == k:
            self.i += 1
            return True
        return False

    def either(self):
        parts = [self.both()]
        while self.take('OR'):
            parts.append(self.both())
        parts = [p for p in parts if p is not None]
        if not parts:
            return None
        return ('or', parts) if len(parts) > 1 else parts[0]

    def both(self):
        pos, neg = [self.term()], []
        while True:
            if self.take('AND'):
                (neg if self.take('NOT') else pos).append(self.term())
            elif self.take('NOT'):
                neg.append(self.term())
            else:
                break
        pos = [p for p in pos if p is not None]
        neg = [p for p in neg if p is not None]
        if not pos:
            return None
        if len(pos) == 1 and not neg:
            return pos[0]
        return ('and', pos, neg)

    def term(self):
        if self.take('('):
            r = self.either()
            if not self.take(')'):
                raise RefError
            return r
        if self.kind() != 'ATOM':
            raise RefError
        pos, neg = [], []
        while self.kind() == 'ATOM':
            t = self.toks[self.i]
            self.i += 1
            ws = self.words_of(t)
            if not ws:
                self.ignored.append(t)
                continue
            if len(ws) > 1:
                a = ('PHRASE', tuple(ws))
            else:
                a = ('GLOB' if self.is_glob(ws[0]) else 'ATOM', ws[0])
            (neg if t[0] == '-' else pos).append(a)
        if not pos and not neg:
            return None
        if not pos:
            raise RefError
        if len(pos) == 1 and not neg:
            return pos[0]
        return ('and', pos, neg)


def ref_atoms(f, out):
    if f[0] in ('ATOM', 'PHRASE', 'GLOB'):
        out.add(f)
    else:
        for k in f[1]:
            ref_atoms(k, out)
        for k in f[2] if f[0] == 'and' else ():
            ref_atoms(k, out)
    return out


def ref_eval(f, val):
    if f[0] == 'or':
        return any(ref_eval(k, val) for k in f[1])
    if f[0] == 'and':
        return all(ref_eval(k, val) for k in f[1]) and \
            not any(ref_eval(k, val) for k in f[2])
    return val[f]


def tree_form(node):
    """Real parse tree -> (formula); checks where NOT appears."""
    kind, v = node.nodeType(), node.getValue()
    if kind in ('ATOM', 'GLOB'):
        check(isinstance(v, str), f'{kind} with value {v!r}')
        return (kind, v)
    if kind == 'PHRASE':
        return (kind, tuple(v))
    if kind == 'OR':
        check(len(v) > 0, 'empty OR')
        check(all(k.nodeType() != 'NOT' for k in v), 'NOT beneath OR')
        return ('or', [tree_form(k) for k in v])
    check(kind == 'AND', f'{kind} where it cannot be executed')
    pos = [tree_form(k) for k in v if k.nodeType() != 'NOT']
    neg = [tree_form(k.getValue()) for k in v if k.nodeType() == 'NOT']
    check(pos, 'AND without a positive part')
    return ('and', pos, neg)


TOK = ['foo', 'bar', 'the', 'of', 'AND', 'and', 'Or', 'OR', 'NOT', 'not', '(',
       ')', '(', ')', '-foo', '-the', '-"foo bar"', '"foo bar"', '"the"',
       'foo-bar', 'fo*', 'b?r', '*', '-', '--foo', '""', '"', 'AND', 'OR',
       'NOT', 'x.y', '"a (b) OR"', '-of', 'foo"bar"', 'aNd', '-AND', '"AND"',
       '-fo*', '"fo* bar"']


def join_tokens(rng, toks):
    s = ''
    for t in toks:
        s += t + rng.choice([' ', ' ', ' ', '', '\t', '\u00a0'])
    return s


class C17(Harness):
    id = 'C17'
    rule = ('token sequences: all of length up to 3 over the token kinds, '
            'grammar-derived queries with random damage, random characters; '
            'result compared with an independent parser on every truth '
            'assignment (up to 64) of the atoms; non-trivial: accepted with '
            'an operator')
    shrinkable = ('toks',)

    def grammar(self, rng, depth):
        if depth == 0 or rng.random() < .4:
            return [rng.choice(['foo', 'bar', 'baz', 'qux', 'the', '-foo',
                                'foo bar', 'foo -bar', '"foo bar"', 'the -foo',
                                'foo-bar', 'fo*', '-the foo', 'x y z'])]
        r = rng.random()
        k = rng.choice([2, 2, 3, 4])
        sub = [self.grammar(rng, depth - 1) for _ in range(k)]
        out = list(sub[0])
        for s in sub[1:]:
            if r < .35:
                out += ['OR'] + s
            elif r < .7:
                out += rng.choice([['AND'], ['AND', 'NOT'], ['NOT']]) + s
            else:
                out += rng.choice(['AND', 'OR', 'NOT']).split() + s
        if rng.random() < .6:
            out = ['('] + out + [')']
        return out

    def cases(self, rng, tier):
        base = ['foo', 'the', 'AND', 'OR', 'NOT', '(', ')', '-bar', '"a b"']
        for n in range(4):
            for toks in itertools.product(base, repeat=n):
                yield dict(toks=list(toks), sep=' ', pipe='default')
        for k in itertools.count():
            r = rng.random()
            if r < .5:
                toks = self.grammar(rng, rng.choice([1, 2, 3, 4]))
                for _ in range(rng.choice([0, 0, 0, 1, 2])):
                    i = rng.randrange(len(toks) + 1)
                    if rng.random() < .5:
                        toks[i:i] = [rng.choice(TOK)]
                    else:
                        del toks[i:i + 1]
            elif r < .85:
                toks = [rng.choice(TOK) for _ in range(rng.randint(0, 9))]
            else:
                toks = [''.join(rng.choice('ab ()"-*?.\n\tANDORT') for _ in
                                range(rng.randint(0, 14)))]
            yield dict(toks=toks, sep=rng.choice(['', ' ', ' ', ' ', '\t',
                                                  '\u00a0']),
                       pipe=rng.choice(['default', 'default', 'split',
                                        'html', 'single']))

    def run(self, case):
        from zope.index.text.lexicon import Lexicon
        from zope.index.text.queryparser import QueryParser
        from zope.index.text.parsetree import ParseError
        lex = Lexicon(*pipeline(case['pipe']))
        q = case['sep'].join(case['toks'])
        ref = RefParser(
            lambda t: ref_pipeline(case['pipe'], t, glob=True),
            lambda w: '*' in w or '?' in w)
        try:
            want = ref.parse(q)
        except RefError:
            want = None
        p = QueryParser(lex)
        try:
            tree = p.parseQuery(q)
        except ParseError:
            check(want is None, f'{q!r} refused')
            return False
        check(want is not None, f'{q!r} accepted as {tree!r}')
        form = tree_form(tree)
        eq(list(p.getIgnored()), ref.ignored, f'ignored words of {q!r}')
        tree2, ign2 = QueryParser(lex).parseQueryEx(q)
        eq((tree_form(tree2), list(ign2)), (form, ref.ignored),
           f'parseQueryEx({q!r})')
        atoms = sorted(ref_atoms(want, set()), key=repr)
        eq(sorted(ref_atoms(form, set()), key=repr), atoms,
           f'atoms of {q!r}')
        n = len(atoms)
        rng = random.Random(1)
        rows = range(2 ** n) if n <= 6 else (
            rng.getrandbits(n) for _ in range(64))
        for row in rows:
            val = {a: bool(row >> i & 1) for i, a in enumerate(atoms)}
            eq(ref_eval(form, val), ref_eval(want, val),
               f'{q!r} parsed as {tree!r}, for {val}')
        return want[0] in ('and', 'or')


# -- scores --------------------------------------------------------------------

class C18(Text):
    id = 'C18'
    rule = ('random histories on both families and both scorers; every score '
            'of every word against the BM25 formula (single precision), and '
            'okascore.score on random arguments; non-trivial: two documents '
            'of different length share a word')
    kinds = ['okapi', 'pure']

    def cases(self, rng, tier):
        for k in itertools.count():
            if k % 5 == 4:
                items = [[d, rng.choice([1, 2, 3, 7, 1000, 2 ** 20])]
                         for d in rng.sample(range(-99, 999), rng.choice(
                             [0, 1, 2, 9, 40]))]
                yield dict(items=items, lens=[
                    [d, f + rng.choice([0, 1, 10, 3000])] for d, f in items],
                    idf=rng.choice([.1, .6931, 2.5, 13.9]),
                    mean=rng.choice([.5, 1.0, 3.25, 800.0]))
            else:
                yield self.history(rng, big=k % 3 == 2)[0]

    def run(self, case):
        if 'items' in case:
            return self.direct(case)
        self.make(case)
        self.nt = False
        self.twin = Text()
        self.twin.make(case, 'pure' if case['kind'] == 'okapi' else 'okapi')
        step = self.op

        def both(op):
            step(op)
            self.twin.op(op)
        self.op = both
        try:
            self.steps(case, self.scores)
        finally:
            del self.op
        return self.nt

    def direct(self, case):
        from zope.index.text.okascore import score
        import BTrees
        lens = {d: n for d, n in case['lens']}
        items = [(d, f) for d, f in case['items']]
        result = {}
        eq(score(result, items, lens, case['idf'], case['mean']), None,
           'okascore.score')
        eq(sorted(result), sorted(lens), 'documents scored by okascore.score')
        for d, f in items:
            want = f * 2.2 / (f + 1.2 * (.25 + .75 * lens[d] / case['mean'])
                              ) * case['idf']
            close(result[d], want, f'okascore.score of {d}', 1e-12)
        return len(items) > 1

    def scores(self, at):
        ref = self.ref
        N = len(ref)
        total = sum(map(len, ref.values()))
        for w in sorted(set().union(*ref.values())):
            has = {d: t.count(w) for d, t in ref.items() if w in t}
            idf = math.log(1 + N / len(has))
            for ix in (self.ix, self.twin.ix):
                got = dict(ix.search(w))
                eq(sorted(got), sorted(has), f'documents of {w!r}' + at)
                for d, f in has.items():
                    tf = f * 2.2 / (f + 1.2 * (
                        .25 + .75 * len(ref[d]) / (total / N)))
                    close(got[d], tf * idf, f'score of {d} for {w!r}' + at)
            self.nt |= len({len(ref[d]) for d in has}) > 1


class C19(Text):
    id = 'C19'
    rule = ('random histories on both families; every score of every word '
            'against the cosine formula (single precision); non-trivial: two '
            'documents with different norms share a word')
    kinds = ['cosine']

    def cases(self, rng, tier):
        for k in itertools.count():
            yield self.history(rng, big=k % 3 == 2)[0]

    def run(self, case):
        self.make(case)
        self.nt = False
        self.steps(case, self.scores)
        return self.nt

    def scores(self, at):
        ref = self.ref
        N = len(ref)
        W = {d: math.sqrt(sum((1 + math.log(t.count(w))) ** 2
                              for w in set(t))) for d, t in ref.items()}
        for w in sorted(set().union(*ref.values())):
            has = {d: t.count(w) for d, t in ref.items() if w in t}
            idf = math.log(1 + N / len(has))
            got = dict(self.ix.search(w))
            eq(sorted(got), sorted(has), f'documents of {w!r}' + at)
            for d, f in has.items():
                close(got[d], (1 + math.log(f)) / W[d] * idf,
                      f'score of {d} for {w!r}' + at)
            self.nt |= len({W[d] for d in has}) > 1


class C20(Text):
    id = 'C20'
    rule = ('random indexes and query strings with AND, OR, phrases, repeated '
            'and unknown terms; non-trivial: a document scores')
    shrinkable = ('ops', 'queries')

    def tree(self, rng, ws, depth):
        r = rng.random()
        if depth == 0 or r < .4:
            w = [rng.choice(ws) for _ in range(rng.choice([1, 1, 2, 3]))]
            k = rng.random()
            if k < .25:
                return '"' + ' '.join(w) + '"'
            if k < .4:
                return ' '.join(w * 3)
            if k < .5:
                return '-'.join(w)
            return ' '.join(w)
        op = rng.choice([' AND ', ' OR '])
        return '(' + op.join(self.tree(rng, ws, depth - 1) for _ in range(
            rng.choice([2, 2, 3]))) + ')'

    def cases(self, rng, tier):
        for k in itertools.count():
            case, ids, ws = self.history(rng, big=k % 4 == 3, steps=16)
            case['pad'] = 0
            ws = ws + ws + rng.choice([[], ['nope', 'the']])
            case['queries'] = [self.tree(rng, ws, rng.choice([0, 1, 2]))
                               for _ in range(8)]
            yield case

    def run(self, case):
        from zope.index.text import TextIndex
        from zope.index.text.queryparser import QueryParser
        from zope.index.text.parsetree import ParseError
        self.make(case)
        ti = TextIndex(self.lex, self.ix)
        for op in case['ops']:
            self.op(op)
        nt = False
        for q in case['queries']:
            try:
                tree = QueryParser(self.lex).parseQuery(q)
            except ParseError:
                refuses(ParseError, ti.apply, q)
                continue
            raw = tree.executeQuery(self.ix)
            raw = None if raw is None else dict(raw.items())
            qw = self.ix.query_weight(tree.terms())
            got = ti.apply(q)
            if raw is None:
                eq(got, None, f'apply({q!r})')
                continue
            got = dict(got.items())
            eq(sorted(got), sorted(raw), f'documents of apply({q!r})')
            for d, s in got.items():
                check(0 < s <= 1 + 1e-5, f'apply({q!r}) gave document {d} '
                      f'the score {s!r}')
                close(s, raw[d] / qw, f'apply({q!r}): score of {d}')
                nt = True
        return nt


# -- pipelines -----------------------------------------------------------------

SAMPLE = ['foo', 'Bar', 'THE', 'the', 'of', 'x', 'Y', 'É', 'été', 'İstanbul',
          'ǅ', 'straße', '9', '_', 'a_b', '<b>', '</b>', '&amp;', '&', ';',
          '*', 'fo*', '?', ' ', ' ', ' ', '-', ',', '\n', '𝒳', 'ﬁ', "don't",
          '<a href="x y">', '<', '>', 'A', 'NOT', '٣', 'e\u0301']


def sample_text(rng):
    return ''.join(rng.choice(SAMPLE) + rng.choice(['', ' ', ' '])
                   for _ in range(rng.choice([0, 1, 3, 8, 20])))


class C24(Harness):
    id = 'C24'
    rule = ('random texts through nine pipelines (order-sensitive elements, '
            'with and without processGlob): source ids, term ids and words '
            'compared, and the elements themselves against their definition; '
            'non-trivial: two or more words')

    def cases(self, rng, tier):
        for k in itertools.count():
            pipe = rng.choice(['default', 'split', 'none', 'html', 'single',
                               'order', 'order2', 'late', 'revglob'])
            yield dict(pipe=pipe, texts=[
                sample_text(rng) if rng.random() < .7 else
                [sample_text(rng) for _ in range(rng.choice([0, 1, 2]))]
                for _ in range(3)])
    shrinkable = ('texts',)

    def run(self, case):
        from zope.index.text import lexicon as L
        pipe = case['pipe']
        lex = L.Lexicon(*pipeline(pipe))
        nt = False
        for t in case['texts']:
            words = ref_pipeline(pipe, t)
            eq(list(lex.termToWordIds(t)), [lex.get_wid(w) for w in words],
               f'{t!r} looked up before it is indexed')
            src = list(lex.sourceToWordIds(t))
            eq([lex.get_word(w) for w in src], words, f'words of {t!r}')
            eq(list(lex.termToWordIds(t)), src, f'{t!r} looked up as a term')
            flat = t if isinstance(t, str) else ''.join(t)
            if '*' not in flat and '?' not in flat:
                eq(list(lex.parseTerms(t)), words, f'parseTerms({t!r})')
            nt |= len(words) > 1
            lst = split(flat) + ['the', 'The', 'a', 'A', 'ÿ', 'þ', 'Ā', '']
            keep = list(lst)
            eq(list(L.CaseNormalizer().process(lst)),
               [w.lower() for w in lst], 'CaseNormalizer')
            eq(list(L.StopWordRemover().process(lst)),
               [w for w in lst if w not in stopwords()], 'StopWordRemover')
            eq(list(L.StopWordAndSingleCharRemover().process(lst)),
               [w for w in lst if w not in stopwords() and not (
                   len(w) == 1 and ord(w) < 255)],
               'StopWordAndSingleCharRemover')
            eq(lst, keep, 'the list given to a pipeline element')
        return nt


class C25(Harness):
    id = 'C25'
    rule = ('random texts over words, markup fragments, separators and glob '
            'markers against a character-by-character splitter; non-trivial: '
            'two or more words')
    shrinkable = ('texts',)

    def cases(self, rng, tier):
        for k in itertools.count():
            if rng.random() < .5:
                yield dict(texts=[sample_text(rng) for _ in range(rng.choice(
                    [0, 1, 2]))])
            else:
                yield dict(texts=[''.join(rng.choice('aB1_ é<>&;*?-#/"\n')
                                          for _ in range(rng.randint(0, 25)))])

    def run(self, case):
        from zope.index.text.lexicon import Splitter
        from zope.index.text.htmlsplitter import HTMLWordSplitter
        nt = False
        texts = case['texts']
        for glob in (False, True):
            name = 'processGlob' if glob else 'process'
            want = [w for t in texts for w in split(t, glob)]
            eq(list(getattr(Splitter(), name)(list(texts))), want,
               f'Splitter.{name}({texts!r})')
            want = [w for t in texts
                    for w in split(strip_markup(t.lower()), glob)]
            eq(list(getattr(HTMLWordSplitter(), name)(list(texts))), want,
               f'HTMLWordSplitter.{name}({texts!r})')
            nt |= len(want) > 1
        return nt


ALL = [C11, C12, C13, C14, C15, C16, C17, C18, C19, C20, C24, C25]
