"""C21: queries change neither the index nor the query.

Every query function already under contract for its result is verified once
more against a frame condition: at exit every component of every object that
existed at entry, and every attribute of every object, is what it was.  The
callees with a contract of their own contribute what they are allowed to
modify."""
import setopsx
import field
import kwindex
import topicx
import lexx
import textx
import searchx
import parsex

P = 'C21'


def merged(name):
    out = {}
    for m in MODS:
        out.update(getattr(m, name, {}))
    return out


def framed(cls):
    """The query specification with the frame as its postcondition."""
    class F(cls):
        props = (P,)
        soft = False
        inline = True
        strict_frame = True

        def ensures(self, S0, S, a, res):
            return []

        def on_raise(self, S0, S, a, exc):
            return None if cls.on_raise(self, S0, S, a, exc) is None else []
    F.__name__ = F.__qualname__ = cls.__name__ + 'Frame'
    return F


QUERIES = [
    (field, 'Apply DocCount WordCount'),
    (kwindex, 'Search SearchOr SearchCI SearchOrCI SearchStr Apply ApplyDict '
     'ApplyDictOr DocCount WordCount HasDoc'),
    (topicx, 'Search SearchOr SearchStr ApplyList ApplyDict ApplyDictOr'),
    (lexx, 'Term TermList Parse ParseList GetWord GetWid Words Wids'),
    (searchx, 'Search SearchC Glob GlobC Phrase PhraseC'),
    (textx, 'HasDoc GetWords'),
    (parsex, 'And Or Not Atom Phrase Glob'),
]

MODS = [setopsx] + [m for m, _ in QUERIES]
ATTRS, STRUCTS, OVERRIDES, EXTERNALS = map(
    merged, ('ATTRS', 'STRUCTS', 'OVERRIDES', 'EXTERNALS'))
SPECS = searchx.SPECS + [
    framed(getattr(m, c))() for m, names in QUERIES for c in names.split()]
