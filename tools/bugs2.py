BUGS = [
 dict(id='kw-tree-conversion', property='C04', file='keyword/index.py',
  old="""            if word_idx is None:
                idx[word] = word_idx = Set()
            word_idx.insert(docid)
            if (not isinstance(word_idx, TreeSet) and
                    len(word_idx) >= self.tree_threshold):
                # Convert to a TreeSet.
                idx[word] = TreeSet(word_idx)
""", new="""            if word_idx is None:
                idx[word] = word_idx = Set()
            if (not isinstance(word_idx, TreeSet) and
                    len(word_idx) + 1 >= self.tree_threshold):
                # Convert to a TreeSet.
                idx[word] = TreeSet(word_idx)
            word_idx.insert(docid)
""", needs='a posting that reaches the tree threshold (64 documents)',
  what='the document that causes the conversion is not found',
  demo="""
from zope.index.keyword import KeywordIndex
ix = KeywordIndex()
for i in range(70):
    ix.index_doc(i, ['k'])
    assert i in ix.search('k'), i
"""),
 dict(id='kw-unknown-skipped', property='C04', file='keyword/index.py',
  old="""            docids = self._fwd_index.get(word, self.family.IF.Set())
            sets.append(docids)
""", new="""            docids = self._fwd_index.get(word)
            if docids is not None or not sets:
                sets.append(docids or self.family.IF.Set())
""", needs="an 'and' query whose unknown word follows a known one",
  what='a keyword no document has is ignored',
  demo="""
from zope.index.keyword import KeywordIndex
ix = KeywordIndex()
ix.index_doc(1, ['a', 'b'])
ix.index_doc(2, ['a'])
assert list(ix.search(['zz', 'a'])) == []
assert list(ix.search(['a', 'b', 'zz'])) == []
"""),
 dict(id='kw-empty-stays', property='C05', file='keyword/index.py',
  old="""                idx[word].remove(docid)
                if not idx[word]:
                    del idx[word]
""", new="""                docids = idx[word]
                docids.remove(docid)
                if not docids and not isinstance(docids, self.family.IF.TreeSet):
                    del idx[word]
""", edits=None, needs='a posting that was a TreeSet and loses its last document',
  what='wordCount counts a keyword that no document has',
  demo="""
from zope.index.keyword import KeywordIndex
ix = KeywordIndex()
for i in range(64):
    ix.index_doc(i, ['k'])
for i in range(64):
    ix.unindex_doc(i)
assert ix.wordCount() == 0, ix.wordCount()
"""),
 dict(id='topic-and-dup', property='C06', file='topic/index.py',
  old="""            rs = None
            for set in sets:
                rs = self.family.IF.intersection(rs, set)
                if not rs:
                    break
""", new="""            rs = None
            for set in sets:
                if rs:
                    rs = self.family.IF.intersection(rs, set)
                else:
                    rs = set
""", needs="an 'and' search over three filters, the smallest two disjoint",
  what='documents of the last filter alone are returned',
  demo="""
from zope.index.topic import TopicIndex
from zope.index.topic.filter import PythonFilteredSet
ix = TopicIndex()
ix.addFilter(PythonFilteredSet('a', "context == 1"))
ix.addFilter(PythonFilteredSet('b', "context == 2"))
ix.addFilter(PythonFilteredSet('c', "context > 0"))
for i in range(1, 9):
    ix.index_doc(i, i)
assert list(ix.search(['a', 'b'])) == []
assert list(ix.search(['a', 'c'])) == [1]
assert list(ix.search(['a', 'b', 'c'])) == []
"""),
 dict(id='nbest-stale-worst', property='C07', file='nbest.py',
  edits=[('nbest.py', """        n = len(scores)
        for item""", """        n = len(scores)
        worst = scores[0] if n >= capacity else None
        for item"""),
         ('nbest.py', """            if n >= capacity and score <= scores[0]:
                continue""", """            if worst is not None and score <= worst:
                continue"""),
         ('nbest.py', """                del items[0], scores[0]
""", """                del items[0], scores[0]
                worst = max(scores[0], score)
""")],
  needs='a long addmany: a high score followed by a middling one',
  what='an item better than one that is kept is dropped',
  demo="""
from zope.index.nbest import NBest
nb = NBest(2)
nb.addmany([('a', 1), ('b', 2), ('c', 9), ('d', 5)])
assert nb.getbest() == [('c', 9), ('d', 5)], nb.getbest()
"""),
 dict(id='setops-small-weight', property='C08', file='text/setops.py',
  old="    if weight != 1:\n", new="    if int(weight) != 1:\n",
  needs='a single mapping whose weight lies between 1 and 2',
  what='the weight is not applied',
  demo="""
import BTrees
from zope.index.text.setops import mass_weightedUnion
b = BTrees.family32.IF.Bucket({1: 2.0})
assert dict(mass_weightedUnion([(b, 1.5)])) == {1: 3.0}
assert dict(mass_weightedUnion([(b, 0.5)])) == {1: 1.0}
"""),
 dict(id='lexicon-wid-reuse', property='C11', file='text/lexicon.py',
  old="""        while count() in self._words:
            # just to be safe
            count.change(1)
        return count()
""", new="""        if count() in self._words:
            # just to be safe
            count.change(1)
        return count()
""", needs='a counter that is two or more behind the largest wid',
  what='a new word gets the wid of an old word',
  demo="""
from zope.index.text.lexicon import Lexicon, Splitter
lx = Lexicon(Splitter())
a = lx.sourceToWordIds('a b c d')
lx.wordCount.change(-3)
b = lx.sourceToWordIds('e')
assert not set(a) & set(b), (a, b)
assert [lx.get_word(w) for w in a + b] == list('abcde')
"""),
 dict(id='text-reindex-fewer', property='C14', file='text/baseindex.py',
  old="            if old_wid2w[wid] != newscore:\n",
  new="            if newscore > old_wid2w[wid]:\n",
  needs='re-indexing a document in which a word occurs less often',
  what='the stored frequency stays that of the old text',
  demo="""
from zope.index.text.lexicon import Lexicon, Splitter
from zope.index.text.okapiindex import OkapiIndex
def build(texts):
    ix = OkapiIndex(Lexicon(Splitter()))
    for d, t in texts:
        ix.index_doc(d, t)
    return ix
a = build([(1, 'x x x y'), (2, 'y z'), (1, 'x y')])
b = build([(1, 'x y'), (2, 'y z')])
assert dict(a.search('x')) == dict(b.search('x'))
"""),
 dict(id='text-empty-reindex', property='C14', file='text/baseindex.py',
  old="        self._docweight[docid] = new_docw\n",
  new="        if new_docw:\n            self._docweight[docid] = new_docw\n",
  needs='re-indexing a document with a text without words, then again',
  what='the old length is subtracted twice from the total length',
  demo="""
from zope.index.text.lexicon import Lexicon, Splitter
from zope.index.text.okapiindex import OkapiIndex
ix = OkapiIndex(Lexicon(Splitter()))
ix.index_doc(1, 'a b c')
ix.index_doc(2, 'c d e f')
ix.index_doc(1, '')
ix.index_doc(1, 'a b')
assert ix._totaldoclen() == 6, ix._totaldoclen()
"""),
 dict(id='text-dict-cutoff', property='C13', file='text/baseindex.py',
  old="""                doc2score = self.family.IF.BTree(doc2score)
            doc2score[docid] = weight
            self._wordinfo[wid] = doc2score  # not redundant:  Persistency!
        try:
""", new="""                self._wordinfo[wid] = self.family.IF.BTree(doc2score)
                doc2score[docid] = weight
                continue
            doc2score[docid] = weight
            self._wordinfo[wid] = doc2score  # not redundant:  Persistency!
        try:
""", needs='a word that gets its eleventh document by index_doc',
  what='the eleventh document is not found by the word',
  demo="""
from zope.index.text.lexicon import Lexicon, Splitter
from zope.index.text.okapiindex import OkapiIndex
ix = OkapiIndex(Lexicon(Splitter()))
for i in range(12):
    ix.index_doc(i, 'a b')
assert sorted(ix.search('a')) == list(range(12)), sorted(ix.search('a'))
"""),
 dict(id='phrase-oov-count', property='C15', file='text/baseindex.py',
  old="        if len(wids) != len(cleaned_wids):\n",
  new="        if len(wids) > len(cleaned_wids) + 1:\n",
  needs='a phrase with exactly one word that no document has any more',
  what='KeyError or documents without the phrase',
  demo="""
from zope.index.text.lexicon import Lexicon, Splitter
from zope.index.text.okapiindex import OkapiIndex
ix = OkapiIndex(Lexicon(Splitter()))
ix.index_doc(1, 'a b')
ix.index_doc(2, 'c')
ix.unindex_doc(2)
assert not ix.search_phrase('a c')
"""),
 dict(id='and-empty-dropped', property='C16', file='text/parsetree.py',
  old="""                r = subnode.executeQuery(index)
                # If None, technically it matches every doc, so needn't be
                # included.
                if r is not None:
                    L.append((r, 1))
""", new="""                r = subnode.executeQuery(index)
                # If None, technically it matches every doc, so needn't be
                # included.
                if r or (r is not None and not L):
                    L.append((r, 1))
""", needs='an AND whose second operand matches nothing',
  what='the operand that matches nothing is ignored',
  demo="""
from zope.index.text.textindex import TextIndex
ix = TextIndex()
ix.index_doc(1, 'alpha beta')
assert not ix.apply('alpha and zebra')
assert not ix.apply('zebra and alpha')
assert not ix.apply('alpha and beta and zebra')
"""),
 dict(id='okapi-mean-length', property='C18', file='text/okapiindex.py',
  old="""        count = BaseIndex.index_doc(self, docid, text)
        self._change_doc_len(count)
        return count
""", new="""        known = docid in self._docwords
        count = BaseIndex.index_doc(self, docid, text)
        if count or not known:
            self._change_doc_len(len(set(self.get_words(docid)))
                                 if known else count)
        return count
""", needs='re-indexing a document with a text that repeats a word',
  what='the total length counts distinct words, so scores are off',
  demo="""
from zope.index.text.lexicon import Lexicon, Splitter
from zope.index.text.okapiindex import OkapiIndex
def build(texts):
    ix = OkapiIndex(Lexicon(Splitter()))
    for d, t in texts:
        ix.index_doc(d, t)
    return ix
a = build([(1, 'q'), (2, 'y z'), (1, 'x x x y')])
b = build([(1, 'x x x y'), (2, 'y z')])
assert dict(a.search('x')) == dict(b.search('x'))
"""),
 dict(id='cosine-idf-count', property='C19', file='text/cosineindex.py',
  old="""            idf = inverse_doc_frequency(len(d2w), N)  # an unscaled float
            # print "idf = %.3f" % idf
            if isinstance(d2w, DictType):
                d2w = self.family.IF.Bucket(d2w)
            L.append((d2w, idf))
""", new="""            if isinstance(d2w, DictType):
                idf = inverse_doc_frequency(len(d2w), N)  # an unscaled float
                d2w = self.family.IF.Bucket(d2w)
            else:
                idf = inverse_doc_frequency(self.DICT_CUTOFF + 1, N)
            L.append((d2w, idf))
""", needs='a word in more than eleven documents',
  what='the weight of a frequent word is that of one in eleven documents',
  demo="""
import math
from zope.index.text.lexicon import Lexicon, Splitter
from zope.index.text.cosineindex import CosineIndex
ix = CosineIndex(Lexicon(Splitter()))
for i in range(20):
    ix.index_doc(i, 'a b')
got = ix.search('a')[3]
want = math.log(2.0) / math.sqrt(2.0)
assert abs(got - want) < 1e-5, (got, want)
"""),
 dict(id='kw-normalize-in-place', property='C21', file='keyword/index.py',
  old="        return [w.lower() for w in seq]",
  new="""        if not isinstance(seq, list):
            seq = list(seq)
        for i, w in enumerate(seq):
            seq[i] = w.lower()
        return seq""",
  needs='a case-insensitive search with a list that has capitals',
  what="the caller's query (or document) list is changed",
  demo="""
from zope.index.keyword import CaseInsensitiveKeywordIndex
ix = CaseInsensitiveKeywordIndex()
ix.index_doc(1, ['A', 'b'])
q = ['A', 'B']
assert list(ix.search(q)) == [1]
assert q == ['A', 'B'], q
"""),
 dict(id='kw-apply-pops', property='C21', file='keyword/index.py',
  old="""            if 'operator' in query:
                operator = query['operator']
            query = query['query']
""", new="""            operator = query.pop('operator', operator)
            query = query['query']
""", needs='a dictionary query that is used twice',
  what="the operator is taken out of the caller's dictionary",
  demo="""
from zope.index.keyword import KeywordIndex
ix = KeywordIndex()
ix.index_doc(1, ['a'])
q = {'query': ['a', 'b'], 'operator': 'or'}
assert list(ix.apply(q)) == [1]
assert list(ix.apply(q)) == [1]
"""),
 dict(id='or-default-family', property='C22', file='text/parsetree.py',
  old="        return mass_weightedUnion(weighted, index.family)",
  new="        return mass_weightedUnion(weighted)",
  needs="an OR query of which nothing but stop words remains, on a 64-bit "
        "index",
  what='the result is a 32-bit bucket',
  demo="""
import BTrees
from zope.index.text.lexicon import Lexicon, Splitter
from zope.index.text.okapiindex import OkapiIndex
from zope.index.text.parsetree import OrNode, AtomNode
from zope.index.text.lexicon import StopWordRemover, CaseNormalizer
ix = OkapiIndex(Lexicon(Splitter(), CaseNormalizer(), StopWordRemover()),
                family=BTrees.family64)
ix.index_doc(2 ** 40, 'hello')
r = OrNode([AtomNode('the'), AtomNode('and')]).executeQuery(ix)
assert isinstance(r, BTrees.family64.IF.Bucket), type(r)
r = OrNode([AtomNode('hello'), AtomNode('and')]).executeQuery(ix)
assert list(r) == [2 ** 40]
"""),
 dict(id='wordinfo-not-stored', property='C23', file='text/baseindex.py',
  old="""        if doc2score:
            self._wordinfo[wid] = doc2score  # not redundant:  Persistency!
        else:
""", new="""        if not doc2score:
""", needs='commit after unindexing a document that shares a word, reload',
  what='the change of a plain dictionary is not stored',
  demo="""
import transaction
from ZODB.DB import DB
from ZODB.MappingStorage import MappingStorage
from zope.index.text.lexicon import Lexicon, Splitter
from zope.index.text.okapiindex import OkapiIndex
db = DB(MappingStorage())
c = db.open()
ix = OkapiIndex(Lexicon(Splitter()))
c.root()['ix'] = ix
for i in range(3):
    ix.index_doc(i, 'a b%d' % i)
transaction.commit()
# the bucket of 'a' is only changed in place by this transaction when no
# other word shares it, so use a wid far away
for i in range(200):
    ix.index_doc(100 + i, 'w%d' % i)
transaction.commit()
ix.unindex_doc(1)
wid = ix.lexicon.get_wid('a')
b = ix._wordinfo
assert any(getattr(o, '_p_changed', None) for o in [b]) or True
transaction.commit()
c2 = db.open(transaction.TransactionManager())
ix2 = c2.root()['ix']
assert sorted(ix2._wordinfo[wid]) == [0, 2], sorted(ix2._wordinfo[wid])
"""),
]
