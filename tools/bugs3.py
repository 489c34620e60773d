BUGS = [
 dict(id='wordinfo-not-stored', property='C23', file='text/baseindex.py',
  old="""        if doc2score:
            self._wordinfo[wid] = doc2score  # not redundant:  Persistency!
        else:
""", new="""        if not doc2score:
""", needs='commit after unindexing a document that shares its words, reload',
  what='the change of a plain dictionary is not stored',
  demo="""
import transaction
from ZODB.DB import DB
from ZODB.MappingStorage import MappingStorage
from zope.index.text.lexicon import Lexicon, Splitter
from zope.index.text.okapiindex import OkapiIndex
db = DB(MappingStorage())
c = db.open()
ix = OkapiIndex(Lexicon(Splitter()))
c.root()['ix'] = ix
for i in range(3):
    ix.index_doc(i, 'a b')
transaction.commit()
ix.unindex_doc(1)
transaction.commit()
c2 = db.open(transaction.TransactionManager())
ix2 = c2.root()['ix']
assert sorted(ix2.search('a')) == [0, 2], sorted(ix2.search('a'))
"""),
 dict(id='nbest-worse-tie', property='C07', file='nbest.py',
  old="            if n >= capacity and score <= scores[0]:\n",
  new="            if n >= capacity and score < scores[-1] and score <= scores[0]:\n",
  needs='a full chooser of equal scores and a newcomer with that score',
  what='an earlier item with an equal score is pushed out',
  demo="""
from zope.index.nbest import NBest
nb = NBest(2)
nb.addmany([('a', 5), ('b', 5), ('c', 5)])
assert sorted(i for i, s in nb.getbest()) == ['a', 'b'], nb.getbest()
"""),
 dict(id='nbest-capacity-slip', property='C07', file='nbest.py',
  old="""            if n == capacity:
                del items[0], scores[0]
            else:
                n += 1
        assert n == len(scores)
""", new="""            if n == capacity:
                del items[0], scores[0]
                i = n - 1
            else:
                n += 1
            if i and scores[i] == scores[i - 1] and items[i] == items[i - 1]:
                del items[i], scores[i]
                n -= 1
        assert n == len(scores)
""", needs='the same item added twice with one score',
  what='the second of two equal items is dropped',
  demo="""
from zope.index.nbest import NBest
nb = NBest(3)
nb.addmany([('a', 5), ('a', 5), ('b', 1)])
assert len(nb) == 3, nb.getbest()
"""),
 dict(id='lexicon-case-cache', property='C24', file='text/lexicon.py',
  old="""        for word in last:
            wids.append(self._wids.get(word, 0))
        return wids
""", new="""        for word in last:
            wid = self._wids.get(word, 0)
            if not (wid == 0 and wids and wids[-1] == 0):
                wids.append(wid)
        return wids
""", needs='a term of several words unknown to the lexicon',
  what='runs of unknown words count as one',
  demo="""
from zope.index.text.lexicon import Lexicon, Splitter
lx = Lexicon(Splitter())
lx.sourceToWordIds('a b')
assert lx.termToWordIds('a x y b') == [1, 0, 0, 2], lx.termToWordIds('a x y b')
"""),
 dict(id='lexicon-word-overwrite', property='C11', file='text/lexicon.py',
  old="""            self._wids[word] = wid
            self._words[wid] = word
        return wid
""", new="""            self._wids[word] = wid
            self._words[wid] = word
        elif self._words.get(wid) is not word:
            self._words[wid] = word.strip()
        return wid
""", needs='a known word that begins or ends with white space',
  what='the lexicon gives back another word for the wid',
  demo="""
from zope.index.text.lexicon import Lexicon
lx = Lexicon()
a = lx.sourceToWordIds(['x y '])
b = lx.sourceToWordIds([' '.join(['x', 'y', ''])])
assert a == b
assert lx.get_word(a[0]) == 'x y ', lx.get_word(a[0])
"""),
 dict(id='phrase-short-circuit', property='C15', file='text/baseindex.py',
  old="        if not hits:\n            return hits\n        code = widcode",
  new="        if not hits or len(hits) == len(self._docwords):\n"
      "            return hits\n        code = widcode",
  needs='a phrase whose words are in every document',
  what='documents with the words in another order are returned',
  demo="""
from zope.index.text.lexicon import Lexicon, Splitter
from zope.index.text.okapiindex import OkapiIndex
ix = OkapiIndex(Lexicon(Splitter()))
ix.index_doc(1, 'a b')
ix.index_doc(2, 'b a')
assert list(ix.search_phrase('a b')) == [1], list(ix.search_phrase('a b'))
"""),
 dict(id='term-search-oov', property='C13', file='text/baseindex.py',
  old="""        wids = self._lexicon.termToWordIds(term)
        if not wids:
            return None  # All docs match
        wids = self._remove_oov_wids(wids)
""", new="""        wids = self._lexicon.termToWordIds(term)
        if not any(wids):
            return None  # All docs match
        wids = self._remove_oov_wids(wids)
""", needs='a search for a word that was never indexed',
  what='an unknown word counts as a stop word (matches everything)',
  demo="""
from zope.index.text.lexicon import Lexicon, Splitter
from zope.index.text.okapiindex import OkapiIndex
ix = OkapiIndex(Lexicon(Splitter()))
ix.index_doc(1, 'a b')
assert ix.search('zz') is not None
"""),
 dict(id='reindex-common-lost', property='C13', file='text/baseindex.py',
  old="        only_new_widset = IF.difference(new_widset, in_both_widset)\n",
  new="        only_new_widset = (IF.difference(new_widset, in_both_widset)\n"
      "                           if len(new_widset) != len(old_widset)\n"
      "                           or not in_both_widset else\n"
      "                           IF.difference(new_widset, old_widset))\n"
      "        if len(only_new_widset) == 1 and only_old_widset:\n"
      "            only_old_widset = IF.TreeSet(list(only_old_widset)[:1])\n",
  needs='re-indexing with one new word and two or more words gone',
  what='the document is still found by words it no longer has',
  demo="""
from zope.index.text.lexicon import Lexicon, Splitter
from zope.index.text.okapiindex import OkapiIndex
ix = OkapiIndex(Lexicon(Splitter()))
ix.index_doc(1, 'a b c d')
ix.index_doc(1, 'a e')
for w in 'bcd':
    assert not ix.search(w), w
"""),
 dict(id='docwords-32bit', property='C22', file='text/baseindex.py',
  old="        self._docwords = self.family.IO.BTree()\n",
  new="        self._docwords = IOBTree()\n",
  needs='a 64-bit index and a document id over 2**31',
  what='the document id is refused',
  demo="""
import BTrees
from zope.index.text.lexicon import Lexicon, Splitter
from zope.index.text.okapiindex import OkapiIndex
ix = OkapiIndex(Lexicon(Splitter()), family=BTrees.family64)
ix.index_doc(2 ** 40, 'hello')
assert list(ix.search('hello')) == [2 ** 40]
"""),
 dict(id='query-weight-oov', property='C20', file='text/okapiindex.py',
  old="        for t in self._remove_oov_wids(wids):\n            idf = inverse",
  new="        for t in set(self._remove_oov_wids(wids)):\n            idf = inverse",
  needs='a query that names a word twice',
  what='the score of a document exceeds the query weight',
  demo="""
from zope.index.text.textindex import TextIndex
ix = TextIndex()
ix.index_doc(1, 'alpha')
ix.index_doc(2, 'alpha alpha alpha alpha alpha alpha beta')
for d, s in ix.apply('alpha or alpha or alpha').items():
    assert 0 < s <= 1, (d, s)
"""),
 dict(id='field-max-excluded', property='C03', file='field/sorting.py',
  old="        use_lazy = rlen > numdocs * (rlen / 100 + 1)\n",
  new="        use_lazy = rlen > numdocs * (rlen // 100 + 1)\n"
      "        if use_lazy and limit:\n            limit = min(limit, numdocs - 1)\n",
  needs='a limited sort of a result set larger than the index',
  what='the last document is missing',
  demo="""
from zope.index.field import FieldIndex
ix = FieldIndex()
for i in range(5):
    ix.index_doc(i, 10 - i)
got = list(ix.sort(list(range(50)), limit=20))
assert got == [4, 3, 2, 1, 0], got
"""),
]
