"""The stop words listed in zope.index.text.stopdict at the pinned commit."""
STOP = frozenset("""
a and are as at be but by for if in into is it no not of on or such that the
their then there these they this to was will with
""".split())
