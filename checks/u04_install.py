"""U04 the third party GPU headers: what is installed, under any fault."""
import contextlib
import hashlib
import io
import os
import shutil
import sys
import tempfile
import threading
import urllib.error
import urllib.request
import zipfile
from engine.harness import scenario

KINDS = {
    "cub": dict(mod="africanus.util.cub", get="cub_dir",
                exc="InstallCubException", top="cub-1.8.0",
                archive="cub-1.8.0.zip", header="cub/cub.cuh",
                sha="836f523a34c32a7e99fba36b30abfe7a68d41d4b"),
    "trove": dict(mod="africanus.util.trove", get="trove_dir",
                  exc="InstallTroveException", top="trove-master",
                  archive="trove-master.zip", header="trove/trove.cuh",
                  sha="183c9ce229b3c0b2afeb808a9f4b07c9d9b9035d"),
}
VERSION = "Current release: v1.8.0 (02/16/2018)"
MODS = ["africanus.util.cub", "africanus.util.trove", "africanus.util.files",
        "africanus.util.appdirs"]


class Crash(BaseException):
    """the process dies here"""


class Escape(BaseException):
    """something outside of the scratch directory would be touched"""


def _zip(k, layout, mark):
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        top = "elsewhere" if layout == "top" else k["top"]
        if layout != "readme":
            z.writestr(top + "/README.md", "# %s\n%s\n" % (
                mark, "older" if layout == "version" else VERSION))
        if layout != "header":
            z.writestr(top + "/" + k["header"], mark)
    return buf.getvalue()


class Machine:
    """A computer with a scratch data directory, a temporary directory and a
    network, on which operations may fail."""

    def __init__(self, k, good):
        self.k, self.good = k, good
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="vu04"))
        self.tmp = os.path.join(self.root, "tmp")
        os.mkdir(self.tmp)
        self.data = None
        self.fault = lambda where: None
        self.content = good
        self.during = None
        self.downloads = self.extractions = 0

    def path(self, *p):
        return os.path.join(self.data, *p)

    # ------------------------------------------------------------ stand-ins
    def _inside(self, *paths):
        for p in paths:
            q = os.path.realpath(os.fspath(p))
            if not q.startswith(self.root + os.sep):
                raise Escape(q)

    def __enter__(self):
        me = self
        self.saved = [(hashlib, "sha1", hashlib.sha1),
                      (hashlib, "new", hashlib.new),
                      (urllib.request, "urlopen", urllib.request.urlopen),
                      (tempfile, "mkdtemp", tempfile.mkdtemp),
                      (tempfile, "tempdir", tempfile.tempdir),
                      (shutil, "rmtree", shutil.rmtree),
                      (shutil, "move", shutil.move),
                      (zipfile.ZipFile, "extractall",
                       zipfile.ZipFile.extractall)]
        old = {n: v for _, n, v in self.saved}
        self.env = {v: os.environ.get(v) for v in ("XDG_DATA_HOME", "HOME")}
        os.environ["XDG_DATA_HOME"] = os.path.join(self.root, "data")
        os.environ["HOME"] = self.root
        tempfile.tempdir = self.tmp

        class Sha1:
            name, digest_size, block_size = "sha1", 20, 64

            def __init__(self, data=b"", **kw):
                self.data = bytes(data)

            def update(self, data):
                self.data += bytes(data)

            def copy(self):
                return Sha1(self.data)

            def hexdigest(self):
                # the genuine archive is the one with the published hash
                return (me.k["sha"] if self.data == me.good
                        else old["sha1"](self.data).hexdigest())

            def digest(self):
                return bytes.fromhex(self.hexdigest())

        def new(name, data=b"", **kw):
            if str(name).lower() in ("sha1", "sha-1"):
                return Sha1(data)
            return old["new"](name, data, **kw)

        class Response(io.BytesIO):
            def read(self, *a):
                if self.tell() == 0:
                    return super().read(20)
                me.fault("read")
                return super().read(*a)

            status = code = 200

            def getcode(self):
                return 200

        def urlopen(url, *a, **kw):
            me.downloads += 1
            if me.during:
                me.during()
            me.fault("urlopen")
            return Response(me.content)

        def mkdtemp(*a, **kw):
            me.fault("mkdtemp")
            return old["mkdtemp"](*a, **kw)

        def rmtree(path, *a, **kw):
            me._inside(path)
            return old["rmtree"](path, *a, **kw)

        def move(src, dst, *a, **kw):
            me._inside(src, dst)
            me.fault("move")
            return old["move"](src, dst, *a, **kw)

        def extractall(zf, path=None, *a, **kw):
            me._inside(path or os.getcwd())
            me.extractions += 1
            me.fault("extract")
            return old["extractall"](zf, path, *a, **kw)
        hashlib.sha1, hashlib.new = Sha1, new
        urllib.request.urlopen = urlopen
        tempfile.mkdtemp = mkdtemp
        shutil.rmtree, shutil.move = rmtree, move
        zipfile.ZipFile.extractall = extractall
        self.mods = {m: sys.modules.get(m) for m in MODS}
        return self

    def __exit__(self, *exc):
        for o, n, v in self.saved:
            setattr(o, n, v)
        for v, x in self.env.items():
            os.environ.pop(v, None)
            if x is not None:
                os.environ[v] = x
        for m, x in self.mods.items():
            sys.modules.pop(m, None)
            if x is not None:
                sys.modules[m] = x
        shutil.rmtree(self.root, ignore_errors=True)

    def boot(self, b):
        """a new process"""
        for m in MODS:
            sys.modules.pop(m, None)
        app = b.mod("africanus.util.appdirs")
        self.data = app.user_data_dir
        self._inside(self.data)
        return b.mod(self.k["mod"])

    # -------------------------------------------------------------- contents
    def put(self, rel, data):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode())

    def installed(self, kind):
        out = {}
        top = self.path("include", kind)
        for d, _, names in os.walk(top):
            for n in names:
                with open(os.path.join(d, n)) as f:
                    out[os.path.relpath(os.path.join(d, n), top)] = f.read()
        return out


@contextlib.contextmanager
def _machine(b, layout="ok"):
    kind = b.pick("library", list(KINDS))
    k = KINDS[kind]
    with Machine(k, _zip(k, layout, "genuine")) as m:
        m.boot(b)
        yield kind, k, m


def _genuine(k):
    return {"README.md": "# genuine\n%s\n" % VERSION,
            k["header"]: "genuine"}


def _prepare(b, kind, k, m):
    """what earlier runs left on the disk"""
    have = b.pick("installed", ["no", "current", "old", "partial"])
    top = "include/" + kind + "/"
    if have == "current":
        m.put(top + "README.md", "# mine\n%s\n" % VERSION)
        m.put(top + k["header"], "mine")
    elif have == "old" and kind == "cub":
        m.put(top + "README.md", "# old\nCurrent release: v1.7.0\n")
        m.put(top + k["header"], "old")
    elif have in ("partial", "old"):
        m.put(top + k["header"] if kind == "trove" else top + "README.md",
              VERSION)
        have = "partial"
    arch = b.pick("archive", ["no", "genuine", "truncated", "other"])
    if arch != "no":
        m.put("downloads/" + k["archive"],
              {"genuine": m.good, "truncated": m.good[:-7],
               "other": _zip(k, "ok", "forged")}[arch])
    return have, arch


@scenario("U04", "install", bounds="every earlier state (4 installations x 4 "
          "archives), genuine, forged or truncated download, and every "
          "single failure of the network, of the temporary directory, of "
          "extraction or of the final move, followed by a retry")
def i1(b):
    with _machine(b) as (kind, k, m):
        have, arch = _prepare(b, kind, k, m)
        mod = m.boot(b)
        get = getattr(mod, k["get"])
        before = m.installed(kind)
        where = m.path("include", kind)
        failed = []

        def fault(place):
            if failed:
                return
            if b.bool("%s_fails" % place):
                failed.append(place)
                raise (urllib.error.URLError("down") if place in
                       ("urlopen", "read") else OSError("disk " + place))
        if have == "current":
            b.same("place", get(), where)
            b.same("no download", m.downloads, 0)
            b.same("left alone", m.installed(kind), before)
            return
        sent = "-"
        if arch != "genuine":
            sent = b.pick("sent", ["genuine", "forged", "cut"])
            m.content = {"genuine": m.good, "cut": m.good[:-30],
                         "forged": _zip(k, "ok", "forged")}[sent]
        m.fault = fault
        err = None
        try:
            b.same("place", get(), where)
        except Escape:
            raise
        except BaseException as e:
            err = e
        m.fault = lambda place: None
        b.same("downloads only without a genuine archive", m.downloads,
               int(arch != "genuine"))
        b.same("no temporary files", os.listdir(m.tmp), [])
        forged = sent in ("forged", "cut")
        b.same("fails when it must", err is not None,
               bool(failed) or forged)
        if err is None:
            b.same("the genuine files", m.installed(kind), _genuine(k))
        elif not failed or failed[0] in ("mkdtemp", "extract", "move"):
            b.same("its own exception", type(err).__name__, k["exc"])
        if err is not None and (forged or failed[0] in ("urlopen", "read")):
            b.same("refused before anything is removed", m.installed(kind),
                   before)
        if forged and not failed:
            bad = hashlib.sha1(m.content).hexdigest()
            msg = str(err)
            b.same("tells the hashes", 0 <= msg.find(bad) <
                   msg.find(k["sha"]), True)
        # and again
        m.content = m.good
        n = m.downloads
        b.same("a retry works", get(), where)
        b.same("then the genuine files", m.installed(kind), _genuine(k))
        b.same("once more", get(), where)
        b.same("no needless download", m.downloads - n, int(
            err is not None and (forged or failed[0] in ("urlopen", "read"))))


@scenario("U04", "crash", bounds="the process dies at the network, in the "
          "middle of the download, at extraction or at the final move, and "
          "is started again")
def i2(b):
    with _machine(b) as (kind, k, m):
        have, arch = _prepare(b, kind, k, m)
        if have == "current":
            return
        mod = m.boot(b)
        at = b.pick("dies", ["urlopen", "read", "mkdtemp", "extract", "move"])

        def fault(place):
            if place == at:
                raise Crash(place)
        m.fault = fault
        died = False
        try:
            getattr(mod, k["get"])()
        except Crash:
            died = True
        m.fault = lambda place: None
        b.same("dies", died, arch != "genuine" or
               at not in ("urlopen", "read"))
        mod = m.boot(b)
        b.same("works", getattr(mod, k["get"])(), m.path("include", kind))
        b.same("the genuine files", m.installed(kind), _genuine(k))


@scenario("U04", "version", bounds="readmes of up to 2 (thorough: 3) of ten "
          "lines in any order, with and without the header")
def i6(b):
    lines = ["", "# CUB", "Current release: v1.7.0 (06/07/2017)", "v1.8.0",
             "Current release: v1.8.0", "(02/16/2018)", "Current release: ",
             "Current release: v1.8.0 (02/16/2017)", VERSION,
             "<b>%s</b>, see" % VERSION]
    k = KINDS["cub"]
    with Machine(k, _zip(k, "ok", "genuine")) as m:
        m.boot(b)
        n = b.int("n", 0, 2 if b.tier == "quick" else 3)
        text = [b.pick("line%d" % i, lines) for i in range(n)]
        head = b.bool("header")
        m.put("include/cub/README.md", "\n".join(text) + b.pick(
            "end", ["\n", ""]))
        if head:
            m.put("include/cub/" + k["header"], "mine")
        before = m.installed("cub")
        mod = m.boot(b)
        b.same("place", mod.cub_dir(), m.path("include", "cub"))
        current = head and any(VERSION in x for x in text)
        b.same("download", m.downloads, int(not current))
        b.same("files", m.installed("cub"),
               before if current else _genuine(k))


@scenario("U04", "archive_contents", bounds="archives lacking the top "
          "directory, the readme, the header or the version line")
def i3(b):
    layout = b.pick("layout", ["ok", "top", "readme", "header", "version"])
    with _machine(b, layout) as (kind, k, m):
        mod = m.boot(b)
        exc = getattr(mod, k["exc"])
        bad = {"cub": ["top", "readme", "header", "version"],
               "trove": ["top", "readme"]}[kind]
        for i in range(2):
            if layout in bad:
                b.raises("refused", exc, getattr(mod, k["get"]))
            else:
                b.same("works", getattr(mod, k["get"])(),
                       m.path("include", kind))
        b.same("downloaded once", m.downloads, 1)
        b.same("no temporary files", os.listdir(m.tmp), [])


@scenario("U04", "at_the_same_time", bounds="a second thread asks for the "
          "headers while the first one downloads or extracts them")
def i4(b):
    with _machine(b) as (kind, k, m):
        mod = m.boot(b)
        get = getattr(mod, k["get"])
        at = b.pick("at", ["urlopen", "extract"])
        res, threads = [], []

        def second():
            try:
                res.append(get())
            except BaseException as e:
                res.append(e)

        def fault(place):
            if place == at and not threads:
                t = threading.Thread(target=second, daemon=True)
                threads.append(t)
                t.start()
                t.join(0.1)
        m.fault = fault
        b.same("first", get(), m.path("include", kind))
        threads[0].join(20)
        b.same("second", res, [m.path("include", kind)])
        b.same("installed once", (m.downloads, m.extractions), (1, 1))
        b.same("the genuine files", m.installed(kind), _genuine(k))


@scenario("U04", "file_hash", bounds="files of 14 lengths around the 1 MiB "
          "chunk, reads that return short")
def i5(b):
    m = b.mod("africanus.util.files")
    M = 1024 * 1024
    n = b.pick("n", [0, 1, 2, 63, 64, 65, 4095, 65536, M - 1, M, M + 1,
                     2 * M - 1, 2 * M, 2 * M + 5])
    data = bytes(range(251)) * (n // 251 + 1)
    data = data[:n]
    d = tempfile.mkdtemp(prefix="vu04")
    try:
        p = os.path.join(d, "f")
        with open(p, "wb") as f:
            f.write(data)
        b.same("hash", m.sha_hash_file(p), hashlib.sha1(data).hexdigest())
    finally:
        shutil.rmtree(d, ignore_errors=True)
