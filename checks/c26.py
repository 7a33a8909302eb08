"""Download of example cases.  Nothing that exists is overwritten; each file of the dataset
arrives once, under its own name, in the new folder; a failed request ends the download
and leaves no file behind; identifiers are read correctly and others are refused."""

from engine.arr import DefiniteError
from engine.interp import Dead
from engine.lib import delit
from engine.report import AnchorLost
from engine.values import DictC, ListC, Opaque, Ref, StrT
from engine.world import World

PK = "wam2layers.download."
UUID = "f9572240-f179-4338-9e1b-82c5598529e2"
DOI = f"https://doi.org/10.4121/{UUID}.v1"
LINK = "https://opendap.example.org/thredds/catalog/data2/case/catalog.html"
CATALOG = ["https://opendap.example.org/fileServer/case/2022-08-30_fluxes.nc", "https://opendap.example.org/fileServer/case/2022-08-31_fluxes.nc",
           "https://opendap.example.org/fileServer/case/Volta Tagging.Region.nc4", "https://opendap.example.org/fileServer/case/LICENSE"]
FILES = {"config.yaml": "https://data.example.org/ndownloader/files/111", "README.md": "https://data.example.org/ndownloader/files/222",
         "Source_Region.nc": "https://data.example.org/ndownloader/files/333.zip", "NOTES": "https://data.example.org/ndownloader/files/444"}
TARGET = (("sym", "cwd"), "/eiffel")
WRITERS = ("write_text", "write_bytes", "touch")
HARM = ("unlink", "rmdir", "rename", "replace")


def norm(parts):
    """Relative to the working directory."""
    if parts and isinstance(parts[0], str) and parts[0][:1] != "/":
        p = parts[0]
        while p.startswith("./"):
            p = p[2:]
        return (("sym", "cwd"), "/" + p) + tuple(parts[1:])
    return tuple(parts or ())


def tree(I, st, v):
    if isinstance(v, dict):
        return I.alloc(st, DictC({k: tree(I, st, x) for k, x in v.items()}))
    if isinstance(v, list):
        return I.alloc(st, ListC(tuple(tree(I, st, x) for x in v)))
    return v


class Net:
    """A server: ``fail`` is the number of the request that is answered with an error."""

    def __init__(self, exists=False, fail=None, content=("mine.nc",), first="Data Link", link=LINK):
        self.w = w = World()
        self.I, self.st = w.I, w.st
        self.exists, self.fail, self.content = exists, fail, content
        self.requests, self.catalogs = [], []
        self.bad = set()
        fields = [{"name": "Organizations", "value": "TU Delft; WUR"}, {"name": "Data Link", "value": [link]}, {"name": "Format", "value": ["netCDF4"]}]
        if first != "Organizations":
            fields.sort(key=lambda f: f["name"] != first)
        self.info = {"custom_fields": fields, "title": "Example", "files": [
            {"id": n, "name": k, "size": 10, "download_url": u} for n, (k, u) in enumerate(FILES.items())]}
        I = w.I
        for n in ("requests.get", "requests.request"):
            I.hooks["ext:" + n] = self.get
        for n in ("threddsclient.download_urls", "threddsclient.client.download_urls"):
            I.hooks["ext:" + n] = self.crawl
        I.cfg["opaque_method"] = self.method
        I.cfg["opaque_attr"] = self.attr
        I.cfg["fs"] = self.fs

    def error(self, st, kind, node):
        self.I.do_raise(st, Opaque(("exc", kind, "injected")), node, kind)
        st.alive = False
        raise Dead()

    def get(self, I, st, args, kw, node):
        url = delit(args[-1] if args else kw.get("url"))
        n = len(self.requests)
        self.requests.append(url)
        if not isinstance(url, str):
            raise AnchorLost("the address of a request is not followed")
        if self.fail == n:
            self.bad.add(n)
        return Opaque(("response", n, url), "response")

    def crawl(self, I, st, args, kw, node):
        self.catalogs.append(delit(args[0] if args else kw.get("url")))
        return I.alloc(st, ListC(tuple(CATALOG)))

    def method(self, I, st, o, name, args, kw, node):
        if o.key[:1] != ("response",):
            return None
        n = o.key[1]
        if name == "raise_for_status":
            if n in self.bad:
                self.error(st, "HTTPError", node)
            return (None,)
        if name == "json":
            if n in self.bad:
                return tree(I, st, {"message": "error"})
            return tree(I, st, self.info)
        if name == "__enter__":
            return o
        if name in ("__exit__", "close"):
            return (None,)
        if name == "iter_content":
            return I.alloc(st, ListC((Opaque(("body",) + o.key),)))

    def attr(self, I, st, o, name):
        if o.key[:1] != ("response",):
            return None
        if name == "ok":
            return o.key[1] not in self.bad
        if name == "status_code":
            return 404 if o.key[1] in self.bad else 200
        if name in ("raw", "content", "text"):
            return Opaque(("body",) + o.key)

    def fs(self, I, st, name, s, args, kw, node):
        here = self.exists and norm(getattr(s, "parts", None)) == TARGET
        if name in ("exists", "is_dir", "is_file"):
            return here and name != "is_file"
        if name in ("glob", "rglob", "iterdir") and here:
            return I.alloc(st, ListC(tuple(StrT(s.parts + (f"/{x}",), True) for x in self.content)))
        if name == "mkdir" and here and kw.get("exist_ok") is not True and not (len(args) > 2 and args[2] is True):
            self.error(st, "FileExistsError", node)

    def run(self, fn, *args):
        """(result, why it failed)"""
        try:
            return self.w.call(PK + fn, list(args)), None
        except (Dead, DefiniteError) as e:
            return None, str(e) or next((f"{x.name}" for x in reversed(self.I.events) if x.kind == "raise"), "error")

    def saved(self):
        """[(path, mode, what is written there)]"""
        out = []
        for e in self.I.events:
            if e.guard.is_zero():
                continue
            if e.kind == "openfile":
                p = e.args[0]
                mode = e.args[1] if len(e.args) > 1 else e.kw.get("mode", "r")
                out.append([getattr(p, "parts", (p,)), mode, [], e])
            elif e.kind == "fs" and e.name in WRITERS:
                out.append([e.args[0].parts, e.name, [e.args[1] if len(e.args) > 1 else None], e])
            elif e.kind == "filewrite" or e.kind == "call" and e.name in ("shutil.copyfileobj",):
                f = e.args[1] if e.kind == "call" else e.args[0]
                v = e.args[0] if e.kind == "call" else e.args[-1]
                for x in reversed(out):
                    if isinstance(f, Opaque) and f.key[:2] == ("file", x[0]) or self.I.fp(StrT(x[0], True), self.st) == (f.key[1] if isinstance(f, Opaque) and len(f.key) > 1 else None):
                        x[2].append(v)
                        break
        for x in out:
            x[0] = norm(x[0])
        return [x for x in out if isinstance(x[1], str) and (x[1][:1] in "wxa" or x[1] in WRITERS)]

    def harm(self):
        return [e.name for e in self.I.events if e.kind == "fs" and e.name in HARM or e.kind == "call" and e.name in ("shutil.rmtree", "os.remove", "os.rmdir")]


def join(parts):
    return "".join(p if isinstance(p, str) else "<" + str(p[1]) + ">" for p in parts)


def body(v):
    return v.key[3] if isinstance(v, Opaque) and v.key[:2] == ("body", "response") else None


def whole(rep, tag, **kw):
    n = Net(**kw)
    r, why = n.run("download_from_doi", DOI, "eiffel")
    rep.world(n.w)
    where = PK + "download_from_4tu"
    rep.holds("complete", f"{tag}:runs", why is None, f"the download fails: {why}", where)
    if why is not None:
        return
    want = {TARGET[0:1] + (f"/eiffel/{u.split('/')[-1]}",): u for u in CATALOG}
    want.update({TARGET[0:1] + (f"/eiffel/{k}",): u for k, u in FILES.items()})
    saved = n.saved()
    for p, mode, what, e in saved:
        rep.holds("inside", f"{tag}:{join(p)}", p[:1] == TARGET[:1] and len(p) == 2 and isinstance(p[1], str) and p[1].startswith("/eiffel/"), f"{join(p)} is outside of the new folder", where)
        urls = [body(v) for v in what]
        if p in want:
            if not urls or None in urls:
                rep.undecided("complete", f"{tag}:{join(p)}:content", "content not followed")
            else:
                rep.holds("complete", f"{tag}:{join(p)}:content", urls == [want[p]] and "b" in mode or mode == "write_bytes" and urls == [want[p]],
                          f"mode {mode}, filled from {urls} instead of {want[p]}", where)
    for p in want:
        k = len([x for x in saved if x[0] == p])
        rep.holds("complete", f"{tag}:{join(p)}", k == 1, f"written {k} times", where)
    extra = [join(x[0]) for x in saved if x[0] not in want]
    rep.holds("complete", f"{tag}:others", not extra, f"also writes {extra}", where)
    rep.holds("catalog", tag, n.catalogs == [LINK.replace(".html", ".xml")], f"the catalog is {n.catalogs}", where)
    asks = [u for u in n.requests if u not in want.values()]
    rep.holds("catalog", f"{tag}:dataset", bool(asks) and all(u.rstrip("/").endswith("/" + UUID) for u in asks), f"asks {asks} about {UUID}", where)
    return n


def check(rep):
    rep.rule("overwrite", "if the folder exists the download stops with an error before anything is written or removed")
    rep.rule("first", "the folder is created, not reused, before the first file is written")
    rep.rule("inside", "every file written lies in the new folder")
    rep.rule("complete", "each file of the catalog and of the file list is written once, from its own address")
    rep.rule("catalog", "the data link of the dataset that was asked for leads to the catalog")
    rep.rule("failure", "a request answered with an error stops the download; nothing is written from that answer or later")
    rep.rule("doi", "prefix and suffix of a DOI, with or without resolver")
    rep.rule("provider", "4TU is supported, everything else is refused without touching the disk")
    n = None
    for first in ("Data Link", "Organizations", "Format"):
        n = whole(rep, f"{first} first", first=first) or n
    if n:
        made = [e for e in n.I.events if e.kind == "fs" and e.name == "mkdir" and norm(e.args[0].parts) == TARGET]
        first = min((x[3].seq for x in n.saved()), default=0)
        rep.holds("first", "folder", len(made) == 1 and made[0].guard.is_one() and made[0].seq < first, "the folder is not created first", PK + "download_from_4tu")
    total = len(n.requests) if n else 6
    # the folder exists
    for tag, content in (("folder exists", ("mine.nc",)), ("empty folder exists", ()), ("folder with other files exists", ("a.txt", "b"))):
        n = Net(exists=True, content=content)
        r, why = n.run("download_from_doi", DOI, "eiffel")
        rep.world(n.w)
        rep.holds("overwrite", tag, why is not None, "the download goes on", PK + "create_target_directory")
        rep.holds("overwrite", f"{tag}:writes", not n.saved() and not n.harm(), f"writes {[join(x[0]) for x in n.saved()]}, {n.harm()}", PK + "create_target_directory")
    # a request fails
    for k in range(total):
        n = Net(fail=k)
        r, why = n.run("download_from_doi", DOI, "eiffel")
        rep.world(n.w)
        if k not in n.bad:
            continue
        u = n.requests[k]
        rep.holds("failure", f"request {k}:stops", why is not None, f"goes on after {u} failed", PK + "download")
        bad = [join(x[0]) for x in n.saved() if any(body(v) == u for v in x[2]) or not x[2]]
        rep.holds("failure", f"request {k}:file", not bad, f"{bad} left behind from an error answer", PK + "download")
        more = [x for x in n.requests[k + 1:] if x != u]
        rep.holds("failure", f"request {k}:last", not more, f"{more} requested afterwards", PK + "download")
    # identifiers
    dois = {"https://doi.org/10.4121/abc.v1": ("10.4121", "abc.v1"), "http://doi.org/10.5281/zenodo.7010594": ("10.5281", "zenodo.7010594"),
            "doi.org/10.4121/f957-A.v2": ("10.4121", "f957-A.v2"), "10.4121/a/b/c.v1": ("10.4121", "a/b/c.v1"),
            "10.123456789/x_y;(z):1": ("10.123456789", "x_y;(z):1"), "10.1000/182": ("10.1000", "182")}
    for d, want in dois.items():
        n = Net()
        r, why = n.run("parse_doi", d)
        rep.world(n.w)
        if r is not None and not isinstance(r, tuple):
            c = n.st.heap.get(r.id) if isinstance(r, Ref) else None
            r = c.items if isinstance(c, ListC) else None
            if r is None:
                rep.undecided("doi", d, "result not followed")
                continue
        rep.holds("doi", d, r is not None and tuple(map(delit, r)) == want, f"read as {why or r}", PK + "parse_doi")
    for d in ("", "f9572240-f179", "10.4121", "10.4121/", "https://example.org/file.nc", "10.12/abc", "10.4121/abc def", "10.4121/abc?download=1"):
        n = Net()
        r, why = n.run("parse_doi", d)
        rep.holds("doi", f"not {d!r}", why is not None, f"read as {r}", PK + "parse_doi")
    for d, id_ in ((DOI, UUID), (f"10.4121/{UUID}", UUID), (f"10.4121/{UUID}.v12", UUID)):
        n = Net()
        r, why = n.run("get_4tu_id", d)
        rep.holds("doi", f"4TU:{d}", why is None and delit(r) == id_, f"read as {why or r}", PK + "get_4tu_id")
    for d in ("10.5281/zenodo.7010594", "https://doi.org/10.5194/gmd-18-4335-2025", "10.41210/abc", "10.412/xyz", "10.4120/abc"):
        n = Net()
        r, why = n.run("download_from_doi", d, "eiffel")
        rep.world(n.w)
        made = [e.name for e in n.I.events if e.kind == "fs" and e.name == "mkdir"]
        rep.holds("provider", d, why is not None, "not refused", PK + "download_from_doi")
        rep.holds("provider", f"{d}:disk", not made and not n.saved() and not n.requests, f"{made + n.requests} before it is refused", PK + "download_from_doi")
