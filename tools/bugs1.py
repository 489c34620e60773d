BUGS = [
 dict(id='field-reindex-falsy', property='C01', file='field/index.py',
  old="""        if docid in rev_index:
            if docid in self._fwd_index.get(value, ()):
                # no need to index the doc, its already up to date
                return
            self.unindex_doc(docid)
""", new="""        if rev_index.get(docid):
            if docid in self._fwd_index.get(value, ()):
                # no need to index the doc, its already up to date
                return
            self.unindex_doc(docid)
""", needs='re-indexing a document whose old value is falsy (0, "", None)',
  what='the document stays in the posting of its old value',
  demo="""
from zope.index.field import FieldIndex
ix = FieldIndex()
ix.index_doc(1, 0)
ix.index_doc(1, 5)
assert list(ix.apply((0, 0))) == [], list(ix.apply((0, 0)))
assert list(ix.apply((5, 5))) == [1]
"""),
 dict(id='field-zero-bound', property='C01', file='field/index.py',
  old="""        return self.family.IF.multiunion(
            self._fwd_index.values(*query))
""", new="""        lo, hi = query
        return self.family.IF.multiunion(
            self._fwd_index.values(lo or None, hi or None))
""", needs='a range bound of 0 and documents with values beyond it',
  what='a bound of 0 is taken as no bound',
  demo="""
from zope.index.field import FieldIndex
ix = FieldIndex()
for i in range(-3, 4):
    ix.index_doc(i + 10, i)
assert list(ix.apply((0, 2))) == [10, 11, 12], list(ix.apply((0, 2)))
assert list(ix.apply((-2, 0))) == [8, 9, 10], list(ix.apply((-2, 0)))
"""),
 dict(id='field-empty-posting', property='C02', file='field/index.py',
  old="""        if not set:
            del self._fwd_index[value]
""", new="""        if not set and value:
            del self._fwd_index[value]
""", needs='unindexing the last document with a falsy value',
  what='the value 0 is counted as a word although no document has it',
  demo="""
from zope.index.field import FieldIndex
ix = FieldIndex()
ix.index_doc(1, 0)
ix.index_doc(2, 7)
ix.unindex_doc(1)
assert ix.wordCount() == 1, ix.wordCount()
"""),
 dict(id='field-count-drift', property='C02', file='field/index.py',
  old="""            if docid in self._fwd_index.get(value, ()):
                # no need to index the doc, its already up to date
                return
            self.unindex_doc(docid)
""", new="""            old = rev_index[docid]
            if docid in self._fwd_index.get(value, ()):
                # no need to index the doc, its already up to date
                return
            if len(self._fwd_index[old]) > 1:
                # cheaper than unindex_doc: the old posting stays in use
                self._fwd_index[old].remove(docid)
            else:
                self.unindex_doc(docid)
""", needs='re-indexing a document whose old value other documents share',
  what='documentCount grows by one with every such re-index',
  demo="""
from zope.index.field import FieldIndex
ix = FieldIndex()
ix.index_doc(1, 'a')
ix.index_doc(2, 'a')
ix.index_doc(1, 'b')
assert ix.documentCount() == 2, ix.documentCount()
"""),
]
