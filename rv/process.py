"""What a process looks like from outside its data: open files, folders, process-wide settings. Imports no library."""
import builtins
import codecs
import collections
import copy
import datetime
import decimal
import gc
import http.client
import gzip
import io
import locale
import logging
import os
import posixpath
import random
import shutil
import signal
import socket
import sys
import tempfile
import threading
import time
import urllib.parse
import urllib.request
import uuid
import warnings
import xml.dom.minidom
import xml.etree.ElementTree as Et
import xml.sax.expatreader
import xml.sax.handler
import xml.sax.saxutils

SHARED = [builtins, codecs, copy, datetime, decimal, gzip, http.client, io, os, posixpath, random, shutil, socket, sys, tempfile, threading,
          time, urllib.parse, urllib.request, uuid, warnings, xml.dom.minidom, Et, xml.sax, xml.sax.expatreader, xml.sax.handler,
          xml.sax.saxutils]


def open_files():
    out = collections.Counter()
    for fd in os.listdir("/proc/self/fd"):
        try:
            out[os.readlink("/proc/self/fd/" + fd)] += 1
        except OSError:
            pass
    out.pop("/proc/%d/fd" % os.getpid(), None)
    return dict(out)


def tree(folder):
    out = []
    for base, dirs, files in os.walk(folder):
        out += [os.path.join(base, d) + "/" for d in dirs] + [os.path.join(base, f) for f in files]
    return sorted(out)


def umask():
    now = os.umask(0o077)
    os.umask(now)
    return now


def functions():
    """What the functions and classes of shared modules are, per module."""
    out = {}
    for module in SHARED:
        found = []
        for name, value in list(vars(module).items()):
            if callable(value):
                found.append((name, id(value)))
                if isinstance(value, type) and getattr(value, "__module__", None) == module.__name__:
                    found += [(name, n, id(v)) for n, v in list(vars(value).items()) if callable(v)]
        out[module.__name__] = hash(frozenset(found))
    return out


def settings():
    return {"working folder": os.getcwd(), "environment": dict(os.environ), "module path": list(sys.path),
            "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
            "random generator": hash(random.getstate()), "locale": locale.setlocale(locale.LC_ALL),
            "socket timeout": socket.getdefaulttimeout(), "url opener": id(urllib.request._opener),
            "xml prefixes": dict(Et._namespace_map), "warning filters": list(map(repr, warnings.filters)),
            "garbage collection": (gc.isenabled(), gc.get_threshold()), "exception hooks": (id(sys.excepthook), id(threading.excepthook)),
            "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)), "encoding": sys.getfilesystemencoding(),
            "umask": umask(), "decimal numbers": (decimal.getcontext().prec, decimal.getcontext().rounding), "digits of integers": sys.get_int_max_str_digits(),
            "signal handlers": [id(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE, signal.SIGALRM, signal.SIGHUP)],
            "time zone": (time.tzname, time.timezone), "collection callbacks": len(gc.callbacks),
            "logging": (logging.root.level, logging.root.disabled, logging.root.manager.disable),
            "standard library": functions(),
            "threads": threading.active_count(), "trace functions": (sys.gettrace(), sys.getprofile())}
