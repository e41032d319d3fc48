"""Models of the parser's environment: files, paths, json, xml, base64, zlib, re ..."""
import binascii as _binascii
import gzip as _gzip
import json as _json
import re as _re
import struct as _struct
import sys
import types
import xml.etree.ElementTree as _ET
import zlib as _zlib

import z3
from . import core, text, shims
from .core import (
    Sym, SymBool, SymInt, SymReal, SymUnion, SymBytes, SDict, SList, Unsupported, Infeasible,
    resolve, truth, mkbool, merge, eq, conj, disj, neg, mkunion,
)
from .text import (
    SymStr, EncText, Packed, DocTxt, B64, Ch, Byte, Opq, mk, parts_of, atoms, is_text, to_text,
    charlike, ch_in, decide, WS,
)


# =================================================================== paths
class VPath:
    """pathlib.PurePosixPath / Path over the virtual file system."""

    def __init__(self, *args):
        self.abs = False
        self.segs = []
        for a in args:
            self._push(a)
        self._key = None

    @classmethod
    def _make(cls, absolute, segs):
        p = VPath()
        p.abs = absolute
        p.segs = list(segs)
        return p

    def _push(self, a):
        a = resolve(a)
        if isinstance(a, VPath):
            if a.abs:
                self.abs, self.segs = True, []
            self.segs.extend(a.segs)
            return
        if not is_text(a):
            f = getattr(type(a), "__fspath__", None)
            if f is not None:
                return self._push(f(a))
            raise TypeError(
                "argument should be a str or an os.PathLike object, not %r" % type(a).__name__)
        m = text._m(a, "split")("/")
        if len(m) > 1 and decide(eq(m[0], "")):
            self.abs, self.segs = True, []
        for s in m:
            if isinstance(s, str) and not isinstance(s, Sym):
                if s not in ("", "."):
                    self.segs.append(s)
            elif _plain_seg(s):
                self.segs.append(s)
            else:
                if decide(eq(s, "")) or decide(eq(s, ".")):
                    continue
                self.segs.append(s)

    # -- text
    def _to_text(self):
        if not self.segs:
            return "/" if self.abs else "."
        out = ["/"] if self.abs else []
        for i, s in enumerate(self.segs):
            if i:
                out.append("/")
            out.extend(parts_of(s))
        return mk(out)

    def __str__(self):
        t = self._to_text()
        if type(t) is SymStr:
            raise Unsupported("str() of a symbolic path at a C boundary")
        return t

    __fspath__ = __str__

    def as_posix(self):
        return self._to_text()

    def __repr__(self):
        return "VPath(%s%r)" % ("/" if self.abs else "", self.segs)

    def __format__(self, spec):
        return format(str(self), spec)

    def __eq__(self, o):
        return mkbool(eq(self, o))

    def __ne__(self, o):
        return mkbool(neg(eq(self, o)))

    def __lt__(self, o):
        return shims._str(self) < shims._str(o)

    def __hash__(self):
        return hash(str(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- pure operations
    def __truediv__(self, o):
        o = resolve(o)
        if not (is_text(o) or isinstance(o, VPath) or hasattr(type(o), "__fspath__")):
            return NotImplemented
        return VPath(self, o)

    def __rtruediv__(self, o):
        if not is_text(o):
            return NotImplemented
        return VPath(o, self)

    def joinpath(self, *a):
        return VPath(self, *a)

    @property
    def parent(self):
        return VPath._make(self.abs, self.segs[:-1])

    @property
    def parents(self):
        out = []
        p = self
        while p.segs:
            p = p.parent
            out.append(p)
        return tuple(out)

    @property
    def parts(self):
        return tuple((["/"] if self.abs else []) + self.segs)

    @property
    def anchor(self):
        return "/" if self.abs else ""

    root = anchor
    drive = ""

    @property
    def name(self):
        return self.segs[-1] if self.segs else ""

    @property
    def suffix(self):
        n = self.name
        r = text._m(n, "rsplit")(".", 1) if n else [""]
        if len(r) == 2 and decide(neg(eq(r[0], ""))) and decide(neg(eq(r[1], ""))):
            return "." + r[1]
        return ""

    @property
    def suffixes(self):
        n = self.name
        r = text._m(n, "split")(".")
        return ["." + x for x in r[1:]]

    @property
    def stem(self):
        n = self.name
        r = text._m(n, "rsplit")(".", 1) if n else [""]
        if len(r) == 2 and decide(neg(eq(r[0], ""))) and decide(neg(eq(r[1], ""))):
            return r[0]
        return n

    def with_suffix(self, s):
        return VPath._make(self.abs, self.segs[:-1] + [self.stem + s])

    def with_name(self, n):
        return VPath._make(self.abs, self.segs[:-1] + [n])

    def with_stem(self, n):
        return VPath._make(self.abs, self.segs[:-1] + [n + self.suffix])

    def is_absolute(self):
        return self.abs

    def relative_to(self, o, *more, walk_up=False):
        o = VPath(o, *more)
        n = len(o.segs)
        if self.abs != o.abs or len(self.segs) < n or not all(
            decide(eq(a, b)) for a, b in zip(self.segs, o.segs)
        ):
            raise ValueError("%r is not in the subpath of %r" % (self, o))
        return VPath._make(False, self.segs[n:])

    def is_relative_to(self, o):
        try:
            self.relative_to(o)
            return True
        except ValueError:
            return False

    def match(self, pat):
        if not self.segs or not isinstance(pat, str) or "/" in pat:
            raise Unsupported("Path.match")
        import fnmatch

        return fnmatch.fnmatchcase(str(self.name), pat)

    # -- file system
    @classmethod
    def cwd(cls):
        return VPath._make(True, core.E.cwd)

    @classmethod
    def home(cls):
        return VPath("/root")

    def absolute(self):
        if self.abs:
            return self
        return VPath._make(True, list(core.E.cwd) + self.segs)

    def resolve(self, strict=False):
        p = self.absolute()
        r = VPath._make(True, normalise(p.segs))
        if strict and not r.exists():
            raise FileNotFoundError(2, "No such file or directory", repr(r))
        return r

    def _tilde(self):
        if self.abs or not self.segs:
            return False
        s = self.segs[0]
        return decide(s.startswith("~"))

    def expanduser(self):
        if not self._tilde():
            return self
        if not decide(eq(self.segs[0], "~")):
            raise RuntimeError("Could not determine home directory.")
        return VPath._make(True, [HOME] + self.segs[1:])

    def exists(self, **k):
        return core.E.vfs.kind(self) is not None

    def is_file(self):
        return core.E.vfs.kind(self) == "file"

    def is_dir(self):
        return core.E.vfs.kind(self) == "dir"

    def is_symlink(self):
        return False

    def open(self, mode="r", *a, **k):
        return v_open(self, mode, *a, **k)

    def read_text(self, encoding=None, errors=None, newline=None):
        with v_open(self, "r", -1, encoding, errors) as f:
            return f.read()

    def read_bytes(self):
        with v_open(self, "rb") as f:
            return f.read()

    def write_text(self, *a, **k):
        core.E.event("writing %r" % (self,))
        return 0

    write_bytes = touch = mkdir = unlink = rename = write_text

    def iterdir(self):
        for n in core.E.vfs.listdir(self):
            yield VPath._make(self.abs, self.segs + [n])

    def glob(self, pattern):
        for n in core.E.vfs.listdir(self):
            if pattern in ("*", "*.*") or _fnmatch(n, pattern):
                yield VPath._make(self.abs, self.segs + [n])

    def samefile(self, o):
        return decide(eq(self.resolve(), VPath(o).resolve()))

    def stat(self, *a, **k):
        return core.E.vfs.stat(self)

    lstat = stat


def _fnmatch(n, pattern):
    import fnmatch

    return bool(re_match(_compile(fnmatch.translate(pattern)), n, "match"))


def _plain_seg(s):
    """A symbolic segment that can be neither empty, '.', '..' nor hold a slash."""
    solid = False
    for p in s.parts:
        if isinstance(p, str):
            if any(c not in "." for c in p):
                solid = True
        elif isinstance(p, Opq):
            if not p.seg:
                return False
            solid = True
        elif isinstance(p, Ch):
            if p.dom is None or ord("/") in p.dom:
                return False
            if ord(".") not in p.dom:
                solid = True
        else:
            solid = True
    return solid


def normalise(segs):
    out = []
    for s in segs:
        if isinstance(s, str) and not isinstance(s, Sym):
            if s == "..":
                if out:
                    out.pop()
            else:
                out.append(s)
        elif not _plain_seg(s) and decide(eq(s, "..")):
            if out:
                out.pop()
        else:
            out.append(s)
    return out


def _eq_path(a, b):
    ta, tb = isinstance(a, VPath), isinstance(b, VPath)
    if not (ta or tb):
        return NotImplemented
    if not (ta and tb) or a.abs != b.abs:
        return False
    return eq(a._to_text(), b._to_text())


core._EQ_HOOKS.insert(0, _eq_path)


def P(x):
    return x if isinstance(x, VPath) else VPath(x)


# ====================================================================== VFS
class File:
    """content: rope (str/SymStr) whose DocTxt part carries the document."""

    def __init__(self, content, replaced=False):
        self.content = content
        self.replaced = replaced


class Dir:
    """A directory: entries (name, Dir or File); names may be symbolic."""

    def __init__(self):
        self.ents = []

    def get(self, name):
        for n, x in self.ents:
            c = True if n is name else eq(n, name)
            if c is True or (c is not False and decide(c)):
                return x
        return None

    def sub(self, name):
        """The subdirectory of exactly this name, made when missing."""
        for n, x in self.ents:
            if (n is name or eq(n, name) is True) and isinstance(x, Dir):
                return x
        d = Dir()
        self.ents.append((name, d))
        return d


class VFS:
    def __init__(self):
        self.root = Dir()

    def add(self, segs, content):
        """segs: absolute segments, possibly symbolic."""
        self.mkdir(segs[:-1]).ents.append((segs[-1], File(content)))

    def replace(self, segs, content):
        """segs: plain segments of an existing file."""
        d = self._dir(segs[:-1])
        for k, (n, _) in enumerate(d.ents):
            if isinstance(n, str) and not isinstance(n, Sym) and n == segs[-1]:
                d.ents[k] = (n, File(content, True))
                return
        raise KeyError(segs)

    def mkdir(self, segs):
        d = self.root
        for s in segs:
            d = d.sub(s)
        return d

    def _dir(self, segs):
        d = self.root
        for s in segs:
            d = d.get(s)
            if not isinstance(d, Dir):
                return None
        return d

    def find(self, path):
        """File, 'dir' or None.  Directories are walked lexically (no links)."""
        p = P(path).absolute()
        # every intermediate directory of a '..' path must exist
        segs = []
        for s in p.segs:
            if isinstance(s, str) and not isinstance(s, Sym) and s == "..":
                if self._dir(segs) is None:
                    return None
                segs = segs[:-1]
            else:
                segs.append(s)
        if not segs:
            return "dir"
        d = self._dir(segs[:-1])
        r = None if d is None else d.get(segs[-1])
        return "dir" if isinstance(r, Dir) else r

    def kind(self, path):
        r = self.find(path)
        return None if r is None else "dir" if r == "dir" else "file"

    def stat(self, path):
        """Every file has one time of change; a file's length is unknown, and stays
        the same when the file is replaced (see prove.job_of)."""
        f = self.find(path)
        if f is None:
            raise FileNotFoundError(2, "No such file or directory", repr(path))
        size = 4096
        if f != "dir":
            size = 0
            if parts_of(f.content) or f.replaced:
                size = SymInt(z3.Int("size of %s" % "/".join(map(repr, P(path).absolute().resolve().segs))))
                core.E.add(z3.And(size.e > 0, size.e < 2 ** 31))
        t = 1500000000
        return types.SimpleNamespace(
            st_size=size, st_mtime=float(t), st_ctime=float(t), st_atime=float(t), st_mtime_ns=t * 10 ** 9,
            st_mode=0o100644 if f != "dir" else 0o40755, st_nlink=1)

    def listdir(self, path):
        p = P(path).resolve()
        d = self._dir(p.segs)
        if d is None:
            raise FileNotFoundError(2, "No such file or directory", repr(path))
        return SList([n for n, _ in d.ents])


class VFile:
    def __init__(self, path, content, binary=False, codec=None):
        self.path = path
        self.codec = codec
        self.at = atoms(parts_of(content))
        self.pos = 0
        self.closed = False
        self.opened_when = current_guard()
        self.closed_when = []
        self.binary = binary
        self.name = path
        self.mode = "rb" if binary else "r"
        self.encoding = "utf-8"

    def _wrap(self, s):
        return EncText(s) if self.binary else s

    def _check(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def _decode(self):
        self._check()
        if self.codec:
            check_decodes(self.at, self.codec)

    def readable(self):
        return True

    def writable(self):
        return False

    def seekable(self):
        return True

    def read(self, n=-1):
        self._decode()
        n = resolve(n)
        if n is None or n < 0:
            out, self.pos = self.at[self.pos :], len(self.at)
            return self._wrap(mk(out))
        out = self.at[self.pos : self.pos + n]
        if not all(charlike(a) for a in out):
            k = next(i for i, a in enumerate(out) if not charlike(a))
            out = out[: k + 1]  # a document counts as more than any small read
            self.pos += k
            if not isinstance(out[-1], DocTxt):
                raise Unsupported("partial read of encoded text")
            return self._wrap(mk(out))
        self.pos += len(out)
        return self._wrap(mk(out))

    def peek(self, n=1):
        p = self.pos
        r = self.read(n)
        self.pos = p
        return r

    def readline(self, n=-1):
        self._decode()
        out = []
        while self.pos < len(self.at):
            a = self.at[self.pos]
            self.pos += 1
            out.append(a)
            if charlike(a) and decide(ch_in(a, "\n")):
                break
        return self._wrap(mk(out))

    def readlines(self, n=-1):
        return SList(self)

    def __iter__(self):
        while True:
            line = self.readline()
            if not _nonempty(line):
                return
            yield line

    def __next__(self):
        line = self.readline()
        if not _nonempty(line):
            raise StopIteration
        return line

    def seek(self, n, whence=0):
        self._check()
        if whence == 0 and n >= 0:
            self.pos = min(n, len(self.at))
        elif whence == 2 and n == 0:
            self.pos = len(self.at)
        else:
            raise Unsupported("seek")
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        g = current_guard()
        if g is True:
            self.closed = True
        else:
            self.closed_when.append(g)

    def flush(self):
        pass

    def write(self, s):
        raise OSError("not writable")

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.close()
        return False


def current_guard():
    return core.conj([g for _, g in core.E.guards])


def _nonempty(line):
    s = line.s if type(line) is EncText else line
    return s != "" if isinstance(s, str) and not isinstance(s, Sym) else True


class Sink(VFile):
    """A file opened for writing: recorded, contents dropped."""

    def __init__(self, path):
        VFile.__init__(self, path, "")

    def write(self, s):
        return 0


def codec_of(encoding, errors):
    """The codec of a file opened as text: "utf-8" or "ascii"."""
    encoding, errors = resolve(encoding), resolve(errors)
    if errors not in (None, "strict"):
        return "lenient"
    if encoding in (None, "locale"):
        return "utf-8" if core.E.utf8 is True or decide(core.E.utf8) else "ascii"
    name = encoding.lower().replace("_", "-")
    return CODECS.get(name, "other")


CODECS = {"utf-8": "utf-8", "utf8": "utf-8", "utf-8-sig": "utf-8", "ascii": "ascii", "us-ascii": "ascii"}


def check_decodes(at, codec):
    """Refuses, as decoding the file would, what `codec` cannot read."""
    if codec == "utf-8" or codec == "lenient":
        bad = disj([not_text(a) for a in at])
    else:
        bad = disj([beyond_ascii(a) for a in at])
    if bad is False or not decide(bad):
        return
    if codec in ("lenient", "other"):
        raise Unsupported("text decoded in another way")
    raise UnicodeDecodeError(codec, b"\xff", 0, 1, "invalid start byte")


def not_text(a):
    """A byte that belongs to no character (see text.Byte)."""
    if isinstance(a, Byte):
        return True
    return isinstance(a, str) and not isinstance(a, Sym) and any("\udc80" <= c <= "\udcff" for c in a)


_ASCII = z3.Star(z3.Range("\0", "\x7f"))


def beyond_ascii(v):
    """Condition: the stored form of `v` has a character above U+007F."""
    t = type(v)
    if t is Ch or t is Byte:
        return v.code > 127
    if t is Opq:
        return z3.Not(z3.InRe(v.e, _ASCII))
    if t is DocTxt:
        d = v.doc
        return beyond_ascii(d.tree) if d.tree is not None else not (d.head + d.tail).isascii()
    if t is SymUnion:
        return disj([conj([g, beyond_ascii(x)]) for g, x in v.alts])
    if t is SDict:
        return disj([conj([p, disj([beyond_ascii(k), beyond_ascii(x)])]) for k, x, p in v.ents])
    if t is SElement:
        return disj([beyond_ascii(x) for x in (v.attrib, v.text, v.tail)]
                    + [conj([p, beyond_ascii(k)]) for k, p in v.kids])
    if is_text(v):
        return disj([not p.isascii() if isinstance(p, str) else beyond_ascii(p) for p in parts_of(v)])
    if isinstance(v, list) and not isinstance(v, Sym):
        return disj([beyond_ascii(x) for x in v])
    return False


def v_open(path, mode="r", buffering=-1, encoding=None, errors=None, *a, **k):
    path = resolve(path)
    mode = resolve(mode)
    if isinstance(path, int):
        raise Unsupported("open of a descriptor")
    if any(c in mode for c in "wax+"):
        core.E.event("writing %r" % (path,))
        f = Sink(path)
        core.E.opened.append(f)
        return f
    r = core.E.vfs.find(P(path))
    if r is None:
        raise FileNotFoundError(2, "No such file or directory", repr(path))
    if r == "dir":
        raise IsADirectoryError(21, "Is a directory", repr(path))
    f = VFile(path, r.content, "b" in mode, None if "b" in mode else codec_of(encoding, errors))
    core.E.opened.append(f)
    return f


# ================================================================ documents
class Doc:
    """A document: build() gives a fresh tree (SDict or SElement) each time."""

    def __init__(self, kind, build, head):
        self.kind = kind  # 'json', 'xml' or 'bad'
        self.build = build
        self.head = head  # first characters of the text

    def rope(self, prefix=""):
        return mk(list(parts_of(prefix)) + [self.head, DocTxt(self)])


def _document(s, what):
    """(leading atoms, doc or None, trailing atoms) of a text."""
    at = atoms(parts_of(s))
    for i, a in enumerate(at):
        if isinstance(a, DocTxt):
            n = len(a.doc.head)
            lead = at[:i]
            if "".join(c if isinstance(c, str) else "\0" for c in lead[len(lead) - n :]) != a.doc.head or len(lead) < n:
                return at, None, []
            return lead[: len(lead) - n], a.doc, at[i + 1 :]
    return at, None, []


def _json_text(s):
    lead, doc, trail = _document(s, "json")
    if doc is None:
        at = atoms(parts_of(s))
        blank = lambda a: isinstance(a, Ch) and decide(ch_in(a, " \t\n\r"))
        while at and blank(at[0]):
            at = at[1:]
        while at and blank(at[-1]):
            at = at[:-1]
        if all(isinstance(a, str) for a in at):
            return _from_py(_json.loads("".join(at)))
        raise Unsupported("json of loose text")
    for a in lead + trail:
        if not charlike(a) or not decide(ch_in(a, " \t\n\r")):
            raise _json.JSONDecodeError("Expecting value", "", 0)
    if doc.kind != "json":
        raise _json.JSONDecodeError("Expecting value", "", 0)
    return doc.build()


def _from_py(v):
    if isinstance(v, dict):
        return SDict([[k, _from_py(x), True] for k, x in v.items()])
    if isinstance(v, list):
        return SList([_from_py(x) for x in v])
    return v


def _json_kw(k):
    for n in k:
        if n not in ("encoding", "strict") and k[n] is not None:
            raise Unsupported("json option " + n)


def json_loads(s, **k):
    _json_kw(k)
    s = resolve(s)
    if type(s) is EncText:
        s = s.decode()
    if not is_text(s):
        if isinstance(s, (bytes, bytearray)):
            s = s.decode()
        else:
            raise TypeError("the JSON object must be str, bytes or bytearray")
    return _json_text(s)


def json_load(f, **k):
    _json_kw(k)
    f = resolve(f)
    return json_loads(f.read())


# ===================================================================== XML
class SElement:
    """xml.etree.ElementTree.Element with conditional children."""

    def __init__(self, tag, attrib=None, text=None, tail=None, **extra):
        self.tag = tag
        if attrib is None:
            self.attrib = SDict()
        elif type(attrib) is SDict:
            self.attrib = attrib
        else:
            self.attrib = SDict([[k, v, True] for k, v in attrib.items()])
        for k, v in extra.items():
            self.attrib[k] = v
        self.text = text
        self.tail = tail
        self.kids = []  # [element, present]
        self._g = core.E.tokens()

    def __repr__(self):
        return "<SElement %s>" % (self.tag,)

    def __setattr__(self, k, v):
        g = None
        if k in ("tag", "attrib", "text", "tail") and core.E.guards and "_g" in self.__dict__:
            g = core.E.relative_guard(self._g)
        if g is not None:
            v = merge(g, v, self.__dict__.get(k))
        object.__setattr__(self, k, v)

    # -- structure
    def _mut(self):
        if core.E.guards and core.E.relative_guard(self._g) is not None:
            core.E.abort_merge("element mutated under a guard")

    def append(self, e):
        g = core.E.relative_guard(self._g) if core.E.guards else None
        for ge, x in (resolve_alts(e)):
            c = conj([ge, True if g is None else g])
            self.kids.append([x, c])

    def extend(self, es):
        es = resolve(es)
        if type(es) is SElement:
            g = core.E.relative_guard(self._g) if core.E.guards else None
            for k, p in list(es.kids):
                self.kids.append([k, conj([p, True if g is None else g])])
            return
        for e in es:
            self.append(e)

    def insert(self, i, e):
        self._mut()
        self._settle()
        self.kids.insert(i, [resolve(e), True])

    def remove(self, e):
        e = resolve(e)
        g = core.E.relative_guard(self._g) if core.E.guards else None
        for i, (k, p) in enumerate(self.kids):
            if k is e and (p is True or core.E.branch(p)):
                if g is None:
                    del self.kids[i]
                else:
                    self.kids[i][1] = conj([p, neg(g)])
                return
        raise ValueError("list.remove(x): x not in list")

    def clear(self):
        self._mut()
        self.kids = []
        self.attrib = SDict()
        self.text = self.tail = None

    def _live(self):
        return [k for k, p in list(self.kids) if p is True or core.E.branch(p)]

    def _settle(self):
        self.kids = [[k, True] for k in self._live()]

    def __iter__(self):
        for k, p in list(self.kids):
            if p is True or core.E.branch(p):
                yield k

    def __reversed__(self):
        return iter(self._live()[::-1])

    def __len__(self):
        return len(self._live())

    def _len(self):
        return core.how_many([p for _, p in self.kids])

    def _truth(self):
        return disj([p for _, p in self.kids])

    def __bool__(self):
        t = self._truth()
        return t if isinstance(t, bool) else core.E.branch(t)

    def __getitem__(self, i):
        r = self._live()[i]
        return SList(r) if isinstance(i, slice) else r

    def __setitem__(self, i, e):
        self._mut()
        self._settle()
        self.kids[i] = [e, True]

    def __delitem__(self, i):
        self._mut()
        self._settle()
        del self.kids[i]

    # -- attributes
    def get(self, k, default=None):
        return self.attrib.get(k, default)

    def set(self, k, v):
        self.attrib[k] = v

    def keys(self):
        return self.attrib.keys()

    def items(self):
        return self.attrib.items()

    # -- search
    def _select(self, path):
        """[(element, presence)] matching the path, in document order."""
        path = resolve(path)
        if type(path) is SymStr:
            raise Unsupported("symbolic element path")
        if path.startswith("/"):
            raise SyntaxError("cannot use absolute path on element")
        cur = [(self, True)]
        if path.endswith("/"):
            path += "*"
        toks = path.split("/")
        i = 0
        while i < len(toks):
            t = toks[i]
            if t == ".":
                i += 1
                continue
            if t == "":
                # '//' : descendants
                i += 1
                nxt = []
                for e, p in cur:
                    nxt.extend((d, conj([p, q])) for d, q in e._desc() if _tag(d, toks[i]))
                cur = nxt
            elif t == "..":
                raise Unsupported("parent step in element path")
            else:
                nxt = []
                for e, p in cur:
                    nxt.extend((k, conj([p, q])) for k, q in e.kids if _tag(k, t))
                cur = nxt
            i += 1
        return cur

    def _desc(self):
        for k, p in self.kids:
            yield k, p
            for d, q in k._desc():
                yield d, conj([p, q])

    def find(self, path, namespaces=None):
        return first_of(self._select(path))

    def findtext(self, path, default=None, namespaces=None):
        e = self.find(path)
        if e is None:
            return default

        def tx(x):
            return x.text if x.text is not None else ""

        if type(e) is SymUnion:
            return mkunion([(g, default if x is None else tx(x)) for g, x in e.alts])
        return tx(e)

    def _pairs(self):
        return [(mkbool(p), k) for k, p in self.kids]

    def _found(self, path, namespaces=None):
        return Found(self._select(path))

    def findall(self, path, namespaces=None):
        return SList([e for e, p in self._select(path) if p is True or core.E.branch(p)])

    def iterfind(self, path, namespaces=None):
        return Found(self._select(path))

    def iter(self, tag=None):
        tag = resolve(tag)
        return Found([(e, p) for e, p in [(self, True)] + list(self._desc())
                      if tag is None or tag == "*" or e.tag == tag])

    def itertext(self):
        if self.text:
            yield self.text
        for k in self:
            yield from k.itertext()
            if k.tail:
                yield k.tail

    def makeelement(self, tag, attrib):
        return SElement(tag, attrib)

    def __copy__(self):
        e = SElement(self.tag, self.attrib, self.text, self.tail)
        e.attrib = self.attrib.copy()
        e.kids = [list(k) for k in self.kids]
        return e

    def __deepcopy__(self, memo):
        import copy

        e = SElement(self.tag, copy.deepcopy(self.attrib, memo), self.text, self.tail)
        e.kids = [[copy.deepcopy(k, memo), p] for k, p in self.kids]
        memo[id(self)] = e
        return e


class Found:
    """Iterator over elements that may be missing."""

    def __init__(self, sel):
        self.sel = sel
        self._g = core.E.tokens()

    def _take(self):
        if core.E.guards and core.E.relative_guard(self._g) is not None:
            core.E.abort_merge("iterator advanced under a guard")
        sel, self.sel = self.sel, []
        return sel

    def _pairs(self):
        return [(mkbool(p), e) for e, p in self._take()]

    def __iter__(self):
        return self

    def __next__(self):
        sel = self._take()
        for i, (e, p) in enumerate(sel):
            if p is True or core.E.branch(p):
                self.sel = sel[i + 1 :]
                return e
        raise StopIteration

    def _next(self, default):
        """next(it, default): the first one there is, not decided."""
        sel = self._take()
        found = first_of(sel)
        if type(found) is SymUnion:
            self.sel = [(e, conj([p] + [disj([q for _, q in sel[:i]])])) for i, (e, p) in enumerate(sel)][1:]
            return mkunion([(g, default if x is None else x) for g, x in found.alts])
        self.sel = sel[1:]
        return default if found is None else found


def resolve_alts(e):
    if type(e) is SymUnion:
        return [(g, x) for g, x in e.alts]
    return [(True, e)]


def _tag(e, t):
    if t == "*":
        return True
    if "[" in t or "{" in t or "@" in t:
        raise Unsupported("element path predicate")
    return e.tag == t


def first_of(sel):
    alts, before = [], []
    for e, p in sel:
        alts.append((conj([p] + before), e))
        if p is True:
            before = None
            break
        before.append(neg(p))
    if before is not None:
        alts.append((conj(before), None))
    if len(alts) == 1:
        return alts[0][1]
    return mkunion(alts)


class STree:
    def __init__(self, root):
        self._root = root

    def getroot(self):
        return self._root

    def find(self, path, namespaces=None):
        return self._root.find(path)

    def findall(self, path, namespaces=None):
        return self._root.findall(path)

    def iterfind(self, path, namespaces=None):
        return self._root.iterfind(path)

    def iter(self, tag=None):
        return self._root.iter(tag)


def _xml_text(s):
    lead, doc, trail = _document(s, "xml")
    if doc is None or doc.kind != "xml":
        if doc is None and all(isinstance(a, str) for a in atoms(parts_of(s))):
            return _elem(_ET.fromstring(s))
        raise _ET.ParseError("syntax error: line 1, column 0")
    for a in lead + trail:
        if not charlike(a) or not decide(ch_in(a, " \t\n\r")):
            raise _ET.ParseError("syntax error: line 1, column 0")
    if lead and doc.head.startswith("<?xml"):
        raise _ET.ParseError("XML or text declaration not at start of entity")
    return doc.build()


def _elem(e):
    r = SElement(e.tag, dict(e.attrib), e.text, e.tail)
    r.kids = [[_elem(k), True] for k in e]
    return r


def xml_parse(source, parser=None):
    source = resolve(source)
    if isinstance(source, (VPath, str)) or is_text(source):
        with v_open(source, "rb") as f:
            s = f.read()
    else:
        s = source.read()
    return STree(_xml_text(_xml_bytes(s)))


def _xml_bytes(s):
    if type(s) is EncText:
        s = s.s
        try:
            check_decodes(atoms(parts_of(s)), "utf-8")
        except UnicodeDecodeError:
            raise _ET.ParseError("not well-formed (invalid token)")
    return s


def _unhex(s):
    try:
        return shims.bytes_fromhex(s, False)
    except ValueError as ex:
        raise _binascii.Error(str(ex))


def xml_fromstring(s, parser=None):
    s = resolve(s)
    s = _xml_bytes(s)
    if isinstance(s, (bytes, bytearray)):
        s = s.decode()
    return _xml_text(s)


def xml_iterparse(source, events=None, parser=None):
    root = xml_parse(source).getroot()
    evs = events or ("end",)

    def walk(e):
        if "start" in evs:
            yield "start", e
        for k in list(e):
            yield from walk(k)
        if "end" in evs:
            yield "end", e

    return walk(root)


def sub_element(parent, tag, attrib=None, **extra):
    e = SElement(tag, attrib, **extra)
    parent.append(e)
    return e


# ============================================================ base64, zlib
def b64decode(s, altchars=None, validate=False):
    s = resolve(s)
    if type(s) is EncText:
        s = s.s
    if s is None:
        raise TypeError("argument should be a bytes-like object or ASCII string, not 'NoneType'")
    if type(s) is not SymStr:
        import base64

        return base64.b64decode(s, altchars, validate)
    at = atoms(s.parts)
    body = [a for a in at if isinstance(a, B64)]
    rest = [a for a in at if not isinstance(a, B64)]
    if len(body) != 1:
        raise Unsupported("base64 of symbolic text")
    alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/="
    for a in rest:
        if not charlike(a):
            raise Unsupported("base64 of symbolic text")
        if decide(ch_in(a, alpha)):
            raise Unsupported("base64 of symbolic text")
        if validate:
            raise _binascii.Error("Only base64 data is allowed")
    return body[0].payload


def z_decompress(data, wbits=15, bufsize=0, **k):
    data = resolve(data)
    wbits = k.get("wbits", wbits)
    if type(data) is Packed:
        if data.kind == "zlib" and (8 <= wbits <= 15 or wbits == 0 or wbits > 32):
            return data.payload
        if data.kind == "gzip" and wbits > 16:
            return data.payload
        raise _zlib.error("Error -3 while decompressing data: incorrect header check")
    if type(data) in (SymBytes, EncText):
        # an uncompressed payload is not a valid stream (bound of the model)
        raise _zlib.error("Error -3 while decompressing data: incorrect header check")
    return _zlib.decompress(data, wbits)


def g_decompress(data):
    data = resolve(data)
    if type(data) is Packed:
        if data.kind == "gzip":
            return data.payload
        raise _gzip.BadGzipFile("Not a gzipped file")
    if type(data) in (SymBytes, EncText):
        raise _gzip.BadGzipFile("Not a gzipped file")
    return _gzip.decompress(data)


def zstd_decompress(data, *a):
    data = resolve(data)
    if type(data) is Packed and data.kind == "zstd":
        return data.payload
    raise RuntimeError("zstd: invalid frame")


class Decompressor:
    def __init__(self, wbits=15, **k):
        self.wbits = wbits
        self.unused_data = b""
        self.unconsumed_tail = b""
        self.eof = True

    def decompress(self, data, max_length=0):
        return z_decompress(data, self.wbits)

    def flush(self, *a):
        return b""


class BytesFile:
    """io.BytesIO over model bytes."""

    def __init__(self, data=b""):
        self.data = resolve(data)
        self.closed = False

    def read(self, n=-1):
        d, self.data = self.data, b""
        return d

    def getvalue(self):
        return self.data

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        self.closed = True


class TextFile(VFile):
    """io.StringIO over model text."""

    def __init__(self, s=""):
        VFile.__init__(self, "<text>", resolve(s))


class GzipFile:
    def __init__(self, filename=None, mode="rb", fileobj=None, **k):
        if fileobj is None:
            raise Unsupported("GzipFile by name")
        self.f = fileobj

    def read(self, n=-1):
        return g_decompress(self.f.read())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


# ================================================================= struct
def s_unpack(fmt, data):
    out, used = shims.unpack_all(fmt, resolve(data))
    if used != len(data):
        raise _struct.error("unpack requires a buffer of %d bytes" % used)
    return out


def s_unpack_from(fmt, data, offset=0):
    data = resolve(data)
    if type(data) is Packed:
        data = data.raw()
    return shims.unpack_all(fmt, data[offset:])[0]


def s_iter_unpack(fmt, data):
    data = resolve(data)
    if type(data) is Packed:
        data = data.raw()
    n = _struct.calcsize(fmt)
    if len(data) % n:
        raise _struct.error("iterative unpacking requires a buffer of a multiple of %d bytes" % n)
    for i in range(0, len(data), n):
        yield shims.unpack_all(fmt, data[i : i + n])[0]


class SStruct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = _struct.calcsize(fmt)

    def unpack(self, d):
        return s_unpack(self.format, d)

    def unpack_from(self, d, offset=0):
        return s_unpack_from(self.format, d, offset)

    def iter_unpack(self, d):
        return s_iter_unpack(self.format, d)


class SArray(SList):
    """array.array of integers (native little-endian)."""

    _sizes = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 8, "L": 8, "q": 8, "Q": 8}

    def __init__(self, code, init=()):
        self.typecode = code
        self.itemsize = self._sizes[code]
        init = resolve(init)
        SList.__init__(self)
        if isinstance(init, bytes) or type(init) in (SymBytes, Packed):
            self.frombytes(init)
        else:
            list.extend(self, list(init))

    def frombytes(self, data):
        if type(data) is Packed:
            data = data.raw()
        if len(data) % self.itemsize:
            raise ValueError("bytes length not a multiple of item size")
        for i in range(0, len(data), self.itemsize):
            self.append(shims.from_bytes(data[i : i + self.itemsize], "little",
                                         signed=self.typecode.islower()))

    def tolist(self):
        return SList(self)

    def byteswap(self):
        xs = [x.to_bytes(self.itemsize, "little") for x in self]
        self[:] = [shims.from_bytes(x, "big") for x in xs]


# ====================================================================== re
class VMatch:
    def __init__(self, s_atoms, start, end, groups, pat):
        self._at = s_atoms
        self._s, self._e = start, end
        self._g = groups
        self.re = pat

    def _span(self, i):
        if isinstance(i, str):
            i = self.re.groupindex[i]
        if i == 0:
            return (self._s, self._e)
        if i > self.re.groups:
            raise IndexError("no such group")
        return self._g.get(i, (-1, -1))

    def group(self, *ids):
        if not ids:
            ids = (0,)
        out = []
        for i in ids:
            a, b = self._span(i)
            out.append(None if a < 0 else mk(self._at[a:b]))
        return out[0] if len(out) == 1 else tuple(out)

    def __getitem__(self, i):
        return self.group(i)

    def groups(self, default=None):
        return tuple(
            default if self._span(i)[0] < 0 else self.group(i)
            for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return SDict([[k, self.group(k), True] for k in self.re.groupindex])

    def _place(self, k):
        if k < 0 or all(charlike(a) for a in self._at[:k]):
            return k
        return shims.sx_len(mk(self._at[:k]))

    def start(self, i=0):
        return self._place(self._span(i)[0])

    def end(self, i=0):
        return self._place(self._span(i)[1])

    def span(self, i=0):
        return (self.start(i), self.end(i))

    @property
    def string(self):
        return mk(self._at)

    @property
    def lastindex(self):
        return max(self._g) if self._g else None

    def __bool__(self):
        return True


class VPattern:
    def __init__(self, pattern, flags=0):
        self.real = _re.compile(pattern, flags)
        self.pattern = pattern
        self.flags = self.real.flags
        self.groups = self.real.groups
        self.groupindex = dict(self.real.groupindex)
        self._tree = None

    def tree(self):
        if self._tree is None:
            import re._parser as sp

            self._tree = sp.parse(self.pattern, self.flags & ~_re.UNICODE & ~_re.TEMPLATE
                                  if hasattr(_re, "TEMPLATE") else self.flags & ~_re.UNICODE)
        return self._tree

    def match(self, s, *a):
        return re_match(self, s, "match", *a)

    def search(self, s, *a):
        return re_match(self, s, "search", *a)

    def fullmatch(self, s, *a):
        return re_match(self, s, "fullmatch", *a)

    def _matches(self, s):
        """(characters and whole numbers, the matches in them)"""
        at = _whole(s)
        if at is not None:
            try:
                return at, list(self._scan(at))
            except _Apart:
                pass
        at = SymStr(parts_of(s))._chars()
        return at, list(self._scan(at))

    def _scan(self, at):
        pos = 0
        while pos <= len(at):
            m = _search(self, at, pos)
            if m is None:
                return
            yield m
            if m._e > m._s:
                pos = m._e
            else:
                if m._e < len(at) and not charlike(at[m._e]):
                    raise _Apart
                pos = m._e + 1

    def finditer(self, s):
        s = resolve(s)
        if type(s) is not SymStr:
            return self.real.finditer(s)
        return iter(self._matches(s)[1])

    def findall(self, s):
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1))
            else:
                out.append(m.groups())
        return SList(out)

    def split(self, s, maxsplit=0):
        s = resolve(s)
        if type(s) is not SymStr:
            return SList(self.real.split(s, maxsplit))
        if not maxsplit and not self.groups:
            r = _split_simple(self, s)
            if r is not None:
                return r
        if maxsplit:
            raise Unsupported("re.split with a limit")
        at, ms = self._matches(s)
        out, last = [], 0
        for m in ms:
            if m._e == m._s:
                continue
            out.append(mk(at[last : m._s]))
            out.extend(m.groups())
            last = m._e
        out.append(mk(at[last:]))
        return SList(out)

    def sub(self, repl, s, count=0):
        s = resolve(s)
        if type(s) is not SymStr:
            return self.real.sub(repl, s, count)
        at, ms = self._matches(s)
        out, last = [], 0
        for m in ms[:count] if count else ms:
            out.extend(at[last : m._s])
            r = repl(m) if callable(repl) else repl
            if isinstance(r, str) and "\\" in r:
                raise Unsupported("re.sub template")
            out.extend(parts_of(r))
            last = m._e
        out.extend(at[last:])
        return mk(out)


def _split_simple(pat, s):
    """re.split on separators made of commas/white space, numbers kept whole."""
    seps = {r",": ",", r"\s+": WS, r"[,\s]+": "," + WS, r"\s*,\s*": None, r"[\s,]+": "," + WS,
            r"\n": "\n", r";": ";"}
    if pat.pattern not in seps:
        return None
    chars = seps[pat.pattern]
    if chars is None:
        return SList([_sx_strip_inner(x) for x in s.split(",")])
    if len(pat.pattern) <= 2 and not pat.pattern.endswith("+"):
        return s.split(chars)
    at = atoms(s.parts)
    if any(isinstance(a, (Opq, DocTxt)) for a in at):
        return None
    out, cur, insep = [], [], False
    for a in at:
        if charlike(a) and decide(ch_in(a, chars)):
            if not insep:
                out.append(mk(cur))
                cur = []
            insep = True
        else:
            cur.append(a)
            insep = False
    out.append(mk(cur))
    return SList(out)


def _sx_strip_inner(x):
    return text._m(x, "strip")()


def re_match(pat, s, how, pos=0, endpos=None):
    s = resolve(s)
    if s is None or not is_text(s):
        raise TypeError("expected string or bytes-like object")
    if type(s) is not SymStr:
        f = getattr(pat.real, how)
        return f(s, pos) if endpos is None else f(s, pos, endpos)
    at = _whole(s) if not pos and endpos is None else None
    if at is not None:
        try:
            return _match_in(pat, at, 0, how)
        except _Apart:
            pass
    at = s._chars()
    if endpos is not None:
        at = at[:endpos]
    return _match_in(pat, at, pos, how)


class _Apart(Exception):
    """The pattern looks into a number: it has to be taken apart."""


def _whole(s):
    """Characters and numbers kept whole; None if there is nothing to keep."""
    at = atoms(parts_of(s))
    if all(map(charlike, at)) or not all(
            charlike(a) or isinstance(a, (text.IntTxt, text.RealTxt)) for a in at):
        return None
    return at


def _chars_of(a):
    """The characters a number may have in its text."""
    cs = set("0123456789")
    if core.E.feasible(text._negative(a)):
        cs.add("-")
    p = text._has_point(a)
    if p is not False and (p is True or core.E.feasible(p)):
        cs.add(".")
    return cs


def _one(op, av, a, flags):
    """bool/z3: one character passes a single-character test."""
    n = str(op)
    if n == "LITERAL":
        return _lit(a, av, flags)
    if n == "NOT_LITERAL":
        return neg(_lit(a, av, flags))
    if n == "IN":
        return _in_set(av, a, flags)
    return True if flags & _re.S else neg(ch_in(a, "\n"))


_SINGLE = ("LITERAL", "NOT_LITERAL", "IN", "ANY")


def _fits(sub, cs, flags):
    """Of the characters, 'all' / 'none' / 'some' pass the (single) test."""
    if len(sub) != 1 or str(sub[0][0]) not in _SINGLE:
        return "some"
    ok = [_one(sub[0][0], sub[0][1], c, flags) for c in cs]
    return "all" if all(ok) else "some" if any(ok) else "none"


def _never_starts(ops, cs, flags):
    """No match starts with one of these characters."""
    if not ops:
        return False
    op, av = ops[0]
    n = str(op)
    if n in _SINGLE:
        return _fits([ops[0]], cs, flags) == "none"
    if n in ("MAX_REPEAT", "MIN_REPEAT") and av[0] >= 1:
        return _never_starts(list(av[2]), cs, flags)
    if n == "SUBPATTERN":
        return _never_starts(list(av[3]), cs, (flags | av[1]) & ~av[2])
    if n == "BRANCH":
        return all(_never_starts(list(b), cs, flags) for b in av[1])
    return False


def _match_in(pat, at, pos, how):
    if how == "search":
        return _search(pat, at, pos)
    for e, g in _run(list(pat.tree()), at, pos, {}, pat.flags):
        if how == "match" or e == len(at):
            return VMatch(at, pos, e, g, pat)
    return None


def _search(pat, at, pos):
    for i in range(pos, len(at) + 1):
        for e, g in _run(list(pat.tree()), at, i, {}, pat.flags):
            return VMatch(at, i, e, g, pat)
        if i < len(at) and not charlike(at[i]) and not _never_starts(
                list(pat.tree()), _chars_of(at[i]), pat.flags):
            raise _Apart
    return None


_CAT = {
    "CATEGORY_DIGIT": text.DIGITS,
    "CATEGORY_SPACE": WS,
    "CATEGORY_WORD": text._AL + text.DIGITS + "_",
}


def _in_set(items, a, flags):
    cs, negate = [], False
    for op, av in items:
        n = str(op)
        if n == "NEGATE":
            negate = True
        elif n == "LITERAL":
            cs.append(_lit(a, av, flags))
        elif n == "RANGE":
            lo, hi = av
            c = text.code(a) if not isinstance(a, str) else None
            if c is None:
                cs.append(lo <= ord(a) <= hi or (bool(flags & _re.I) and (
                    lo <= ord(a.lower()) <= hi or lo <= ord(a.upper()) <= hi)))
            else:
                cs.append(ch_in(a, [chr(x) for x in range(lo, min(hi, 127) + 1)]))
        elif n == "CATEGORY":
            k = str(av)
            if k in _CAT:
                cs.append(ch_in(a, _CAT[k]))
            else:
                cs.append(neg(ch_in(a, _CAT[k.replace("_NOT", "")])))
        else:
            raise Unsupported("regex set " + n)
    r = disj(cs)
    return neg(r) if negate else r


def _lit(a, code, flags):
    ch = chr(code)
    if flags & _re.I:
        return ch_in(a, {ch.lower(), ch.upper()})
    return ch_in(a, ch)


def _run(ops, at, i, g, flags):
    """Backtracking matcher: yields (end, groups)."""
    if not ops:
        yield i, g
        return
    op, av = ops[0]
    rest = ops[1:]
    n = str(op)
    if n in _SINGLE:
        if i >= len(at):
            return
        a = at[i]
        if not charlike(a):
            if _fits(ops[:1], _chars_of(a), flags) != "none":
                raise _Apart
            return
        if decide(_one(op, av, a, flags)):
            yield from _run(rest, at, i + 1, g, flags)
    elif n in ("MAX_REPEAT", "MIN_REPEAT"):
        lo, hi, sub = av
        sub = list(sub)
        single = len(sub) == 1 and str(sub[0][0]) in _SINGLE
        endless = not isinstance(hi, int) or hi >= 1 << 16
        hi = len(at) if not isinstance(hi, int) or hi > len(at) + 1 else hi

        def rep(k, i, g):
            def more():
                if single and k < hi and i < len(at) and not charlike(at[i]):
                    cs = _chars_of(at[i])
                    f = _fits(sub, cs, flags)
                    if f == "none":
                        return
                    if f == "all" and endless and n == "MAX_REPEAT" and lo - k <= 1:
                        yield from rep(k + 1, i + 1, g)
                    elif n == "MAX_REPEAT" and (lo, hi) == (0, 1) and rest \
                            and _fits(sub, {"-"}, flags) == "all" \
                            and _fits(sub, cs - {"-"}, flags) == "none" \
                            and str(rest[0][0]) == "MAX_REPEAT" and rest[0][1][0] == 1 \
                            and int(rest[0][1][1]) >= 1 << 16 \
                            and _fits(list(rest[0][1][2]), cs - {"-"}, flags) == "all":
                        # a sign, and the digits after it
                        yield from _run(rest, at[:i] + ["0"] + at[i + 1 :], i, g, flags)
                    raise _Apart
                if k < hi:
                    for e, g2 in _run(sub, at, i, g, flags):
                        if e == i:
                            continue
                        yield from rep(k + 1, e, g2)

            if n == "MAX_REPEAT":
                yield from more()
                if k >= lo:
                    yield from _run(rest, at, i, g, flags)
            else:
                if k >= lo:
                    yield from _run(rest, at, i, g, flags)
                yield from more()

        yield from rep(0, i, g)
    elif n == "SUBPATTERN":
        group, add, dele, sub = av
        fl = (flags | add) & ~dele
        for e, g2 in _run(list(sub), at, i, g, fl):
            if group is not None:
                g2 = dict(g2)
                g2[group] = (i, e)
            yield from _run(rest, at, e, g2, flags)
    elif n == "BRANCH":
        for sub in av[1]:
            yield from _run(list(sub) + rest, at, i, g, flags)
    elif n == "AT":
        k = str(av)
        if k in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
            ok = i == 0
        elif k == "AT_END":
            ok = i == len(at) or (i == len(at) - 1 and charlike(at[i]) and decide(ch_in(at[i], "\n")))
        elif k == "AT_END_STRING":
            ok = i == len(at)
        else:
            raise Unsupported("regex " + k)
        if ok:
            yield from _run(rest, at, i, g, flags)
    elif n == "ASSERT":
        if av[0] != 1:
            raise Unsupported("regex lookbehind")
        for _ in _run(list(av[1]), at, i, g, flags):
            yield from _run(rest, at, i, g, flags)
            return
    elif n == "ASSERT_NOT":
        if av[0] != 1:
            raise Unsupported("regex lookbehind")
        for _ in _run(list(av[1]), at, i, g, flags):
            return
        yield from _run(rest, at, i, g, flags)
    else:
        raise Unsupported("regex " + n)


_pat_cache = {}


def _compile(p, flags=0):
    p = resolve(p)
    if isinstance(p, (VPattern,)):
        return p
    if type(p) is SymStr:
        raise Unsupported("symbolic regular expression")
    k = (p, int(flags))
    if k not in _pat_cache:
        _pat_cache[k] = VPattern(p, flags)
    return _pat_cache[k]


# ================================================================= os
def o_join(a, *bs):
    p = P(a)
    for b in bs:
        p = p / resolve(b)
    # os.path.join keeps the text; only redundant separators differ
    return p._to_text() if P(a).segs or P(a).abs else (p._to_text() if p.segs else "")


def _t(p):
    return p._to_text() if isinstance(p, VPath) else p


def o_dirname(p):
    q = P(p)
    if len(q.segs) == 1 and not q.abs:
        return ""
    return q.parent._to_text()


HOME = "home of the user"


def o_expanduser(p):
    q = P(p)
    return VPath("/", HOME, *q.segs[1:])._to_text() if q._tilde() and decide(eq(q.segs[0], "~")) else _t(p)


def o_expandvars(p):
    if decide(shims_contains(p, "$")):
        raise Unsupported("variables of the environment")
    return p


def shims_contains(p, c):
    t = _t(p)
    return t.__contains__(c) if type(t) is SymStr else c in t


def o_splitext(p):
    q = P(p)
    s = q.suffix
    t = q._to_text()
    return (t[: -len(s)] if s else t, s)


def o_relpath(p, start=None):
    a = P(p).resolve().segs
    b = (P(start) if start is not None else VPath.cwd()).resolve().segs
    i = 0
    while i < len(a) and i < len(b) and decide(eq(a[i], b[i])):
        i += 1
    return VPath._make(False, [".."] * (len(b) - i) + a[i:])._to_text()


def o_normpath(p):
    q = P(p)
    out = []
    for s in q.segs:
        if isinstance(s, str) and not isinstance(s, Sym) and s == "..":
            if out and out[-1] != "..":
                out.pop()
                continue
            if q.abs:
                continue
        out.append(s)
    return VPath._make(q.abs, out)._to_text()


class DirEntry:
    def __init__(self, d, name):
        self.name = name
        self._p = P(d) / name
        self.path = self._p._to_text()

    def is_file(self, **k):
        return self._p.is_file()

    def is_dir(self, **k):
        return self._p.is_dir()

    def __fspath__(self):
        return self.path


class ScanDir(list):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def o_scandir(d="."):
    return ScanDir(DirEntry(d, n) for n in core.E.vfs.listdir(d))


def o_walk(top, **k):
    p = P(top)
    names = core.E.vfs.listdir(p)
    dirs = SList([n for n in names if (p / n).is_dir()])
    files = SList([n for n in names if not (p / n).is_dir()])
    yield _t(p), dirs, files
    for d in dirs:
        yield from o_walk(p / d)


def o_fspath(p):
    p = resolve(p)
    if is_text(p):
        return p
    if isinstance(p, VPath):
        return p._to_text()
    raise TypeError("expected str, bytes or os.PathLike object")


def g_glob(pattern, **k):
    p = P(pattern)
    d = p.parent
    out = []
    for n in core.E.vfs.listdir(d):
        if _fnmatch(n, p.name):
            out.append((d / n)._to_text())
    return SList(out)


# ================================================================ functools
def memo(maxsize=128, typed=False):
    if callable(maxsize) and not isinstance(maxsize, int):
        return _memo(maxsize)
    return _memo


def _memo(fn):
    import functools

    cache = []

    @functools.wraps(fn)
    def wrapper(*a, **k):
        for a2, k2, v in cache:
            if len(a) == len(a2) and set(k) == set(k2):
                c = conj([eq(x, y) for x, y in zip(a, a2)] + [eq(k[n], k2[n]) for n in k])
                if decide(c):
                    return v
        if core.E.guards:
            core.E.abort_merge("cached call under a guard")
        v = fn(*a, **k)
        cache.append((a, k, v))
        return v

    wrapper.cache_clear = cache.clear
    wrapper.cache_info = lambda: None
    return wrapper


# ================================================================= modules
def _module(modname, /, **names):
    m = types.ModuleType(modname)
    m.__dict__.update(names)
    return m


class SysModule(types.ModuleType):
    """sys with the streams of the moment."""

    stdout = property(lambda self: sys.stdout)
    stderr = property(lambda self: sys.stderr)
    stdin = property(lambda self: sys.stdin)


def make_modules():
    mods = {}

    def add(modname, /, **names):
        m = _module(modname, **names)
        mods[modname] = m
        if "." in modname:
            parent, leaf = modname.rsplit(".", 1)
            if parent not in mods:
                add(parent)
            setattr(mods[parent], leaf, m)
        return m

    def no(name):
        def f(*a, **k):
            raise Unsupported(name)
        return f

    class JSONDecoder:
        def __init__(self, **k):
            _json_kw(k)

        def decode(self, s):
            return json_loads(s)

    add("json", load=json_load, loads=json_loads, JSONDecodeError=_json.JSONDecodeError,
        JSONDecoder=JSONDecoder, dump=no("json.dump"), dumps=no("json.dumps"))
    add("json.decoder", JSONDecodeError=_json.JSONDecodeError, JSONDecoder=JSONDecoder)
    xml = dict(
        Element=SElement, ElementTree=STree, parse=xml_parse, fromstring=xml_fromstring,
        XML=xml_fromstring, iterparse=xml_iterparse, SubElement=sub_element,
        ParseError=_ET.ParseError, tostring=no("etree.tostring"), XMLParser=lambda **k: None,
        iselement=lambda e: isinstance(resolve(e), SElement))
    add("xml")
    add("xml.etree")
    add("xml.etree.ElementTree", **xml)
    add("xml.etree.cElementTree", **xml)
    paths = dict(Path=VPath, PurePath=VPath, PosixPath=VPath, PurePosixPath=VPath)
    add("pathlib", **paths)
    add("base64", b64decode=b64decode, standard_b64decode=b64decode,
        decodebytes=b64decode, b64encode=no("b64encode"))
    add("binascii", a2b_base64=lambda s, strict_mode=False: b64decode(s),
        Error=_binascii.Error, unhexlify=_unhex, a2b_hex=_unhex)
    add("zlib", decompress=z_decompress, decompressobj=Decompressor, error=_zlib.error,
        MAX_WBITS=15, compress=no("zlib.compress"))
    add("gzip", decompress=g_decompress, BadGzipFile=_gzip.BadGzipFile, GzipFile=GzipFile,
        open=no("gzip.open"), compress=no("gzip.compress"))
    add("struct", unpack=s_unpack, unpack_from=s_unpack_from, iter_unpack=s_iter_unpack,
        calcsize=_struct.calcsize, Struct=SStruct, error=_struct.error)
    add("array", array=SArray)
    add("io", BytesIO=BytesFile, StringIO=TextFile, open=v_open,
        TextIOWrapper=no("TextIOWrapper"))
    add("re", compile=_compile,
        match=lambda p, s, flags=0: _compile(p, flags).match(s),
        search=lambda p, s, flags=0: _compile(p, flags).search(s),
        fullmatch=lambda p, s, flags=0: _compile(p, flags).fullmatch(s),
        findall=lambda p, s, flags=0: _compile(p, flags).findall(s),
        finditer=lambda p, s, flags=0: _compile(p, flags).finditer(s),
        split=lambda p, s, maxsplit=0, flags=0: _compile(p, flags).split(s, maxsplit),
        sub=lambda p, r, s, count=0, flags=0: _compile(p, flags).sub(r, s, count),
        escape=_re.escape, Pattern=VPattern, Match=VMatch, error=_re.error,
        **{n: getattr(_re, n) for n in (
            "I", "IGNORECASE", "S", "DOTALL", "M", "MULTILINE", "X", "VERBOSE", "A", "ASCII")})
    ospath = add("os.path", join=o_join, isfile=lambda p: P(p).is_file(),
                 isdir=lambda p: P(p).is_dir(), exists=lambda p: P(p).exists(),
                 lexists=lambda p: P(p).exists(), dirname=o_dirname,
                 basename=lambda p: P(p).name, abspath=lambda p: o_normpath(P(p).absolute()),
                 realpath=lambda p, **k: P(p).resolve()._to_text(), normpath=o_normpath,
                 splitext=o_splitext, relpath=o_relpath, isabs=lambda p: P(p).abs,
                 expanduser=o_expanduser, expandvars=o_expandvars, split=lambda p: (o_dirname(p), P(p).name),
                 getsize=lambda p: P(p).stat().st_size, getmtime=lambda p: P(p).stat().st_mtime,
                 getctime=lambda p: P(p).stat().st_ctime,
                 sep="/", pardir="..", curdir=".", normcase=lambda p: _t(p))
    import os as _os

    m = add("os", stat=lambda p, **k: P(p).stat(), listdir=lambda d=".": core.E.vfs.listdir(d), scandir=o_scandir, walk=o_walk,
            getcwd=lambda: VPath.cwd()._to_text(), sep="/", linesep="\n", fspath=o_fspath,
            PathLike=_os.PathLike, environ=SDict(), name="posix", pardir="..", curdir=".",
            getenv=lambda k, d=None: d, error=OSError, fsdecode=o_fspath,
            remove=no("os.remove"), makedirs=no("os.makedirs"))
    m.path = ospath
    add("posixpath", **{k: v for k, v in ospath.__dict__.items() if not k.startswith("__")})
    add("glob", glob=g_glob, iglob=lambda p, **k: iter(g_glob(p)))
    import fnmatch as _fn

    add("fnmatch", fnmatch=_fnmatch, fnmatchcase=_fnmatch, translate=_fn.translate,
        filter=lambda ns, p: SList([n for n in ns if _fnmatch(n, p)]))
    import importlib as _il

    def import_module(name, package=None):
        from . import load

        return load.import_(name, {"__package__": package}, None, ("*",), 0)

    def find_spec(name, package=None):
        if name in ("zstd", "zstandard"):
            return types.SimpleNamespace(name=name) if core.E.zstd and name == "zstd" else None
        import importlib.util

        return importlib.util.find_spec(name)

    add("importlib", import_module=import_module)
    add("importlib.util", find_spec=find_spec)
    add("zstd", decompress=zstd_decompress, ZSTD_uncompress=zstd_decompress)
    # what is the same text to every process, or is settled by trying texts out
    ns = {k: v for k, v in sys.__dict__.items() if k not in ("stdout", "stderr", "stdin")}
    ns.update(intern=lambda s: s)
    m = add("sys", **ns)
    m.__class__ = SysModule
    import functools as _ft

    ns = {k: getattr(_ft, k) for k in dir(_ft) if not k.startswith("__")}
    ns.update(lru_cache=memo, cache=_memo)
    add("functools", **ns)
    import collections as _c

    def defaultdict(factory=None, *a, **k):
        d = shims._dict(*a, **k)
        d.default_factory = factory
        return d

    ns = {k: getattr(_c, k) for k in dir(_c) if not k.startswith("__")}
    ns.update(OrderedDict=shims._dict, defaultdict=defaultdict)
    m = add("collections", **ns)
    m.abc = _c.abc
    import itertools as _it

    ns = {k: getattr(_it, k) for k in dir(_it) if not k.startswith("__")}
    add("itertools", **ns)
    import string as _s

    return mods
