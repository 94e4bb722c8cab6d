from demolib import *


def f(b):
    r = Registry()
    r.add("@s/foo", "1.0.0")
    pk = r.pk.pop("@s/foo")
    r.handlers[("GET", "/npm/@s/foo")] = lambda h, body: h.reply(200, pk)
    b.pkg({"@s/foo": "1.0.0"})
    for args in (("--registry", r.url + "npm"), ("--scoped-registry", "@s=" + r.url + "npm")):
        p = b.oro("view", "@s/foo", *args, "--auth", "{%snpm}token=X" % r.url)
        if p.returncode:
            return "view failed: %s %s" % (p.stderr[-300:], [x[:2] for x in r.log])
        if not any(x[1] == "/npm/@s/foo" and x[2].get("authorization") == "Bearer X" for x in r.log):
            return "credentials not sent: %r" % r.log
        r.log.clear()


main(f)
