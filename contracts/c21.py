"""configure_logger."""

import itertools

import z3

from pyvc.lib import Logger

from .kit import *  # noqa: F403
from .kit import contract, zeq

ASSUMPTIONS = ['before the call the package logger has at most one stream handler, at most one file handler (the state every call of configure_logger '
               'restores) and at most one handler of another kind, in any order',
               'logging.Logger.addHandler, removeHandler and setLevel behave as documented']


def handler(k, kind, label, own):
    lg = k.ip.libs['logging'].table
    base = {'stream': lg['StreamHandler'], 'file': lg['FileHandler'], 'other': lg['Handler']}[kind]
    cls = base if not own else ClassVal('User' + base.name, [base], {}, None)
    return ObjRef(cls, {}, label=label)


def kinds(hs, k):
    lg = k.ip.libs['logging'].table
    out = {'stream': [], 'file': [], 'other': []}
    for h in hs:
        kind = 'file' if h.cls.subclass_of(lg['FileHandler']) else 'stream' if h.cls.subclass_of(lg['StreamHandler']) else 'other'
        out[kind].append(h)
    return out


@contract('C21.configure', 'helpers.configure_logger')
def configure(k):
    """exactly the given handler of a kind replaces the previous one; other kinds and, unless given, the level are kept"""
    have, own = [], k.pick(True, False)
    for kind, n in (('stream', k.pick(0, 1)), ('file', k.pick(0, 1)), ('other', k.pick(0, 1))):
        have += [handler(k, kind, f'old {kind} {i}', own) for i in range(n)]
    have = list(k.pick(*itertools.permutations(have)))
    before = kinds(have, k)
    level0 = k.int('level0', 0)
    lg = Logger(have, level0)
    k.ip.logger_obj = lg
    kw = {}
    if k.pick(True, False):
        kw['stream_handler'] = handler(k, 'stream', 'new stream', own) if not before['stream'] or k.pick(True, False) else before['stream'][0]
    if k.pick(True, False):
        kw['file_handler'] = handler(k, 'file', 'new file', own) if not before['file'] or k.pick(True, False) else before['file'][0]
    lv = k.pick(None, k.int('level', 1))
    if lv is not None:
        kw['logging_level'] = lv
    k.returns('returns', k.call('helpers.configure_logger', **kw))
    after = kinds(list_items(lg.handlers), k)
    for kind in ('stream', 'file'):
        new = kw.get(f'{kind}_handler')
        if new is not None:
            k.ensure(f'{kind}_replaced', after[kind] == [new], f'{kind} handlers after the call: {after[kind]}')
        else:
            k.ensure(f'{kind}_kept', after[kind] == before[kind], f'{kind} handlers after the call: {after[kind]}')
    k.ensure('others_kept', after['other'] == before['other'])
    k.ensure('level', zeq(k.get(lg, 'level'), lv if lv is not None else level0), 'a given level is set, otherwise it is kept')
