"""Image stand-ins (symbolic runs) together with the recording Cairo ones (both)."""
from . import etfake, cairofake


def symbolic():
    e = dict(cairofake.env())
    e.update(etfake.env())
    return e, {"open": etfake.fake_open}, ()


def concrete():
    return cairofake.concrete()


def begin(S):
    etfake.begin(S)
    cairofake.begin(S)
