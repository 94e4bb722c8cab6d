"""Mock npm registry + helpers to drive the built oro binary inside a scratch directory."""
import base64, hashlib, http.server, io, json, os, shutil, subprocess, sys, tarfile, tempfile, threading, gzip

ORO = os.path.join(os.getcwd(), "target", "debug", "oro")


def tgz(files, raw=()):
    """files: {path: bytes}; raw: list of TarInfo-like (name, data, mode, type, linkname)"""
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:gz", format=tarfile.USTAR_FORMAT) as t:
        for n, d in files.items():
            if isinstance(d, tuple):
                d, mode = d
            else:
                mode = 0o644
            if isinstance(d, str):
                d = d.encode()
            ti = tarfile.TarInfo("package/" + n)
            ti.size = len(d)
            ti.mode = mode
            t.addfile(ti, io.BytesIO(d))
        for r in raw:
            ti = tarfile.TarInfo(r["name"])
            ti.mode = r.get("mode", 0o644)
            ti.type = r.get("type", tarfile.REGTYPE)
            ti.linkname = r.get("link", "")
            d = r.get("data", b"")
            ti.size = len(d)
            t.addfile(ti, io.BytesIO(d))
    return b.getvalue()


def sri(data):
    return "sha512-" + base64.b64encode(hashlib.sha512(data).digest()).decode()


class Registry:
    def __init__(self):
        self.pk = {}      # name -> packument
        self.blobs = {}   # path -> bytes
        self.log = []     # (method, path, headers)
        self.handlers = {}  # (method, path) -> fn(handler, body)
        me = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def log_message(self, *a):
                pass

            def reply(self, code, body=b"", ctype="application/json", headers=()):
                if isinstance(body, (dict, list)):
                    body = json.dumps(body).encode()
                if isinstance(body, str):
                    body = body.encode()
                self.send_response(code)
                self.send_header("content-type", ctype)
                self.send_header("content-length", str(len(body)))
                for k, v in headers:
                    self.send_header(k, v)
                self.end_headers()
                if self.command != "HEAD":
                    self.wfile.write(body)

            def do(self):
                n = int(self.headers.get("content-length") or 0)
                body = self.rfile.read(n) if n else b""
                me.log.append((self.command, self.path, dict((k.lower(), v) for k, v in self.headers.items()), body))
                h = me.handlers.get((self.command, self.path))
                if h:
                    return h(self, body)
                import urllib.parse
                p = urllib.parse.unquote(self.path.split("?")[0])
                if p in me.blobs:
                    return self.reply(200, me.blobs[p], "application/octet-stream")
                if p[1:] in me.pk:
                    return self.reply(200, me.pk[p[1:]])
                self.reply(404, {"error": "not found"})
            do_GET = do_PUT = do_POST = do_DELETE = do_HEAD = do
        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.srv.daemon_threads = True
        self.port = self.srv.server_address[1]
        self.url = "http://127.0.0.1:%d/" % self.port
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def add(self, name, version, manifest=None, files=None, raw=(), integrity=True, data=None, dist=None, tags=None):
        m = dict({"name": name, "version": version}, **(manifest or {}))
        f = {"package.json": json.dumps(m)}
        f.update(files or {})
        d = data if data is not None else tgz(f, raw)
        path = "/%s/-/%s-%s.tgz" % (name, name.split("/")[-1], version)
        self.blobs[path] = d
        di = {"tarball": self.url.rstrip("/") + path, "shasum": hashlib.sha1(d).hexdigest()}
        if integrity is True:
            di["integrity"] = sri(d)
        elif integrity:
            di["integrity"] = integrity
        di.update(dist or {})
        pk = self.pk.setdefault(name, {"name": name, "dist-tags": {}, "versions": {}})
        pk["versions"][version] = dict(m, dist=di)
        pk["dist-tags"].update(tags or {"latest": version})
        return d


class Box:
    """scratch project; everything oro writes goes under self.dir"""

    def __init__(self):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="orodemo."))
        self.proj = os.path.join(self.dir, "a", "b", "c", "proj")
        os.makedirs(self.proj)
        self.cache = os.path.join(self.dir, "cache")
        self.home = os.path.join(self.dir, "home")
        os.makedirs(self.home)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def pkg(self, deps=None, **kw):
        m = {"name": "proj", "version": "1.0.0"}
        if deps:
            m["dependencies"] = deps
        m.update(kw)
        with open(os.path.join(self.proj, "package.json"), "w") as f:
            json.dump(m, f, indent=2)

    def path(self, *a):
        return os.path.join(self.proj, *a)

    def oro(self, *args, reg=None, env=None, cache=True, timeout=120, cwd=None, first_time=False):
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": self.home, "XDG_CONFIG_HOME": self.home + "/config", "XDG_CACHE_HOME": self.home + "/cache",
             "XDG_DATA_HOME": self.home + "/data", "NO_COLOR": "1", "TMPDIR": self.dir}
        e.update(env or {})
        a = [ORO] + list(args)
        if "--root" not in args:
            a += ["--root", self.proj]
        if reg:
            a += ["--registry", reg.url]
        if cache:
            a += ["--cache", self.cache]
        if not first_time:
            a += ["--no-first-time"]
        r = subprocess.run(a, env=e, cwd=cwd or self.proj, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, stdin=subprocess.DEVNULL)
        return r


def main(f):
    b = Box()
    try:
        r = f(b)
    finally:
        b.close()
    if r:
        print("FAIL:", r)
        sys.exit(1)
    print("ok")
