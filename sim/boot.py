'''Bring a pristine process up: third-party code imported, seams installed,
blmath imported (warm) or only compiled (cold), nothing of it called.'''
import importlib
import importlib.machinery
import importlib.util
import os
import sys
import sysconfig

REPO = os.environ.get('SIM_REPO', '/repo')
SCRATCH = None
modules = []
import_errors = {}


class _Ext(object):
    '''Resolve the compiled extension to the one built for this check.'''
    name = 'blmath.numerics.linalg.cholmod'

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.name:
            return None
        so = os.path.join(SCRATCH, 'cholmod' + sysconfig.get_config_var('EXT_SUFFIX'))
        loader = importlib.machinery.ExtensionFileLoader(fullname, so)
        return importlib.util.spec_from_file_location(fullname, so, loader=loader)


def source_modules():
    out = []
    for d, dirs, files in os.walk(os.path.join(REPO, 'blmath')):
        dirs.sort()
        for f in sorted(files):
            if f.endswith('.py') and not f.startswith('test_') and f != 'conftest.py':
                rel = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                out.append((rel, os.path.join(d, f)))
    return out


def boot(scratch, warm=True):
    global SCRATCH
    SCRATCH = scratch
    sys.dont_write_bytecode = True
    sys.path.insert(0, scratch)
    sys.path.insert(0, REPO)

    # third-party code, real
    import numpy
    import scipy.sparse
    import scipy.sparse.linalg
    import scipy.linalg
    import scipy.spatial
    import simplejson
    import six
    import cached_property
    import plumbum.cli.terminal
    import sklearn.decomposition
    import cv2
    import decimal, random, copy, math, json, io, warnings, logging, inspect, types, re, operator, queue
    import functools, itertools, collections, weakref, contextlib, threading, string, hashlib, heapq, bisect
    import concurrent.futures
    cv2.setNumThreads(0)
    six.moves.cPickle, six.moves.reduce
    import stubs
    stubs.install()
    import keys
    sys.stdin, sys.stdout = keys.Keyboard(), keys.Screen()

    import simnative
    import monitor
    import sched
    simnative.ss_install()
    simnative.ss_yield(monitor.on_native)
    sched.install()
    sys.meta_path.insert(0, _Ext())
    cache = monitor.install(REPO)
    del modules[:]
    for name, path in source_modules():
        modules.append(name)
    if warm:
        for name in list(modules):
            try:
                importlib.import_module(name)
            except Exception as e:
                import_errors[name] = '%s: %s' % (type(e).__name__, e)
    else:
        for name, path in source_modules():
            loader = importlib.machinery.SourceFileLoader(name, path)
            try:
                loader.get_code(name)
            except Exception as e:
                import_errors[name] = '%s: %s' % (type(e).__name__, e)
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()
