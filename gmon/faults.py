"""One-shot failures of file system, archive and pickling operations of the manager while it builds a checkpoint."""
import builtins
import errno
import io
import os
import pathlib
import pickle
import tarfile
import zlib

import dill


class Injector:
    def __init__(self):
        self.on = False
        self.count = 0
        self.at = None
        self.kind = 'os'
        self.fired = None
        self.who = lambda: True
        self.root = None

    def arm(self, at, kind):
        self.count, self.at, self.kind, self.fired = 0, at, kind, None
        self.on = True

    def disarm(self):
        self.on = False
        return self.fired

    def hit(self, name, path=None):
        if not self.on or self.fired is not None or not self.who():
            return
        if path is not None and self.root is not None and not str(path).startswith(self.root):
            return
        if isinstance(self.at, (list, tuple)):
            if name != self.at[0]:
                return
            target = self.at[1]
        else:
            target = self.at
        self.count += 1
        if self.count == target:
            self.fired = f'{name} {os.path.basename(str(path)) if path is not None else ""}'
            if self.kind == 'int':
                raise KeyboardInterrupt
            if self.kind == 'zip' and name.startswith('tar'):
                raise zlib.error('injected failure')
            if name.startswith('dill'):
                raise pickle.PicklingError('injected failure')
            if name.startswith('tar'):
                raise tarfile.TarError('injected failure') if self.kind == 'tar' else OSError(errno.ENOSPC, 'No space left')
            raise PermissionError(13, 'injected') if self.kind == 'perm' else OSError(errno.ENOSPC, 'No space left on device')


INJ = Injector()
_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    real_open = io.open

    def w_open(file, mode='r', *a, **k):
        if isinstance(file, (str, os.PathLike)) and any(c in mode for c in 'wxa+'):
            INJ.hit('open', os.fspath(file))
        return real_open(file, mode, *a, **k)

    io.open = builtins.open = w_open
    tarfile.bltn_open = w_open

    def wrap(fn, name):
        def f(path, *a, **k):
            INJ.hit(name, path if isinstance(path, (str, os.PathLike)) else None)
            return fn(path, *a, **k)
        return f

    for name in ('mkdir', 'unlink', 'replace', 'rename', 'remove'):
        w = wrap(getattr(os, name), name)
        setattr(os, name, w)
    acc = pathlib._NormalAccessor if hasattr(pathlib, '_NormalAccessor') else None
    if acc is not None:
        for name in ('mkdir', 'unlink', 'replace', 'rename'):
            if hasattr(acc, name):
                setattr(acc, name, staticmethod(getattr(os, name)))
        inst = getattr(pathlib, '_normal_accessor', None)
        if inst is not None:
            for name in ('mkdir', 'unlink', 'replace', 'rename'):
                if name in vars(inst):
                    setattr(inst, name, getattr(os, name))
    real_add = tarfile.TarFile.addfile

    def addfile(self, tarinfo, fileobj=None):
        if 'w' in self.mode or 'x' in self.mode or 'a' in self.mode:
            INJ.hit('tar.addfile')
        return real_add(self, tarinfo, fileobj)

    tarfile.TarFile.addfile = addfile
    real_dump = dill.dump

    def dump(*a, **k):
        INJ.hit('dill.dump')
        return real_dump(*a, **k)

    dill.dump = dump
