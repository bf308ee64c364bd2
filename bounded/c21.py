import logging
import os
import shutil
import sys
import tempfile

from bounded import lib
from bounded.gen import pick

lib.load()
from gerabaldi.helpers import configure_logger  # noqa: E402

CLAUSES, clause = lib.registry()


class MyStream(logging.StreamHandler):
    pass


class MyFile(logging.FileHandler):
    pass


class Other(logging.Handler):
    def emit(self, record):
        pass


def is_file(h):
    return isinstance(h, logging.FileHandler)


def is_stream(h):
    return isinstance(h, logging.StreamHandler) and not is_file(h)


@clause(80, funcs='configure_logger')
def replacement(rng, t):
    """after configure_logger: the given stream (file) handler is the only one of its kind, others kept; level set iff given"""
    log = logging.getLogger('gerabaldi')
    saved, lvl = list(log.handlers), log.level
    tmp = tempfile.mkdtemp(prefix='verif_c21_')
    opened = []

    def mkf(i):
        h = pick(rng, [logging.FileHandler, MyFile])(os.path.join(tmp, f'f{i}.log'))
        opened.append(h)
        return h

    try:
        if rng.random() < 0.5:
            log.handlers[:] = []
            if rng.random() < 0.7:
                log.addHandler(pick(rng, [logging.StreamHandler, MyStream])())
            if rng.random() < 0.6:
                log.addHandler(mkf('a'))
        elif rng.random() < 0.5:
            log.addHandler(mkf('b'))
        if rng.random() < 0.4:
            log.handlers.insert(int(rng.integers(len(log.handlers) + 1)), Other())
        hs = list(log.handlers)
        log.handlers[:] = [hs[int(i)] for i in rng.permutation(len(hs))]
        hist = []
        for i in range(int(rng.integers(1, 4))):
            before, level = list(log.handlers), log.level
            s = pick(rng, [logging.StreamHandler, MyStream])(pick(rng, [sys.stderr, sys.stdout])) if rng.random() < 0.6 else None
            f = mkf(f'n{i}') if rng.random() < 0.5 else None
            lv = pick(rng, [None, logging.INFO, logging.DEBUG, logging.ERROR, 17])
            hist.append((type(s).__name__, type(f).__name__, lv, [type(h).__name__ for h in before]))
            t.note(history=hist)
            kw = {}
            if s is not None:
                kw['stream_handler'] = s
            if f is not None:
                kw['file_handler'] = f
            if lv is not None:
                kw['logging_level'] = lv
            configure_logger(**kw)
            now = list(log.handlers)
            st, fl = [h for h in now if is_stream(h)], [h for h in now if is_file(h)]
            if s is not None:
                t.ok(st == [s], 'exactly the given stream handler', got=st)
            else:
                t.ok(st == [h for h in before if is_stream(h)], 'stream handlers kept', got=st)
            if f is not None:
                t.ok(fl == [f], 'exactly the given file handler', got=fl)
            else:
                t.ok(fl == [h for h in before if is_file(h)], 'file handlers kept', got=fl)
            oth = lambda hs: [h for h in hs if not is_stream(h) and not is_file(h)]  # noqa: E731
            t.ok(oth(now) == oth(before), 'handlers of other kinds kept')
            t.eq(log.level, lv if lv is not None else level, 'logger level')
    finally:
        log.handlers[:] = saved
        log.setLevel(lvl)
        for h in opened:
            h.close()
        shutil.rmtree(tmp)


@clause(1, 1, funcs='helpers (import)')
def default_handler(rng, t):
    """the default stream handler installed at import is replaced by a custom one"""
    log = logging.getLogger('gerabaldi')
    saved, lvl = list(log.handlers), log.level
    try:
        t.note(default=[type(h).__name__ for h in saved])
        h = logging.StreamHandler()
        configure_logger(stream_handler=h)
        t.ok([x for x in log.handlers if is_stream(x)] == [h], 'default stream handler replaced', got=log.handlers)
    finally:
        log.handlers[:] = saved
        log.setLevel(lvl)
