"""Observing results of the code under test, tolerantly but strictly enough:
anything that is not what the property promises becomes a Violation."""
from vf.core import Violation


def idlist(rs, what='result'):
    """The ids of a result set/mapping, checked to be distinct ascending."""
    if rs is None:
        raise Violation('%s is None' % what)
    try:
        ids = list(rs.keys()) if hasattr(rs, 'keys') else list(rs)
    except Exception as e:
        raise Violation('%s cannot be iterated: %r' % (what, e))
    for a, b in zip(ids, ids[1:]):
        if not a < b:
            raise Violation('%s: ids are not distinct and ascending: %r'
                            % (what, ids[:50]))
    return ids


def scores(rs, what='result'):
    if rs is None:
        raise Violation('%s is None' % what)
    try:
        return dict(rs.items())
    except Exception as e:
        raise Violation('%s has no items: %r' % (what, e))


def close(a, b, rel=1e-5):
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-9


def raises(exc, fn, *args, **kw):
    """Whether fn raises exactly an instance of exc; anything else (another
    exception, or none) is described."""
    try:
        r = fn(*args, **kw)
    except exc:
        return ''
    except Exception as e:
        return 'raised %r' % e
    return 'returned %r' % (r,)


def diff(got, want):
    """Short description of how two sets differ."""
    g, w = set(got), set(want)
    return 'missing %r, extra %r' % (sorted(w - g, key=repr)[:10],
                                     sorted(g - w, key=repr)[:10])
