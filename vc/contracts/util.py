"""Helpers shared by contracts."""
from ..values import *


def meth(e, o, name):
    return Bound(o.cls.find(name), o)


def frame_of(o):
    return {k: (v.seq if isinstance(v, PyList) else (v, getattr(v, 'version', 0))) for k, v in o.f.items()}


def check_frame(e, o, fr, what):
    """frame condition: the method leaves the problem object unchanged"""
    ok = set(o.f) == set(fr)
    if ok:
        for k, v in o.f.items():
            w = fr[k]
            if isinstance(v, PyList):
                ok = ok and isinstance(w, Seq) and (v.seq is w)
            else:
                ok = ok and not isinstance(w, Seq) and v is w[0] and getattr(v, 'version', 0) == w[1]
    e.obl('frame: %s leaves the problem data unchanged' % what, 'proved' if ok else 'unknown', '', 'frame', 'syntactic')


