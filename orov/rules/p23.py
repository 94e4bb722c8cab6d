"""No answer, package or file makes oro panic: an unwrap of something only data decides, a slice of text at an
offset only data decides and a panic only data avoids all have to be ruled out on every way to them."""
import re
from .. import sym, tables, cg
from ..model import Call
from ..must import MustRule, Engine
from .p29 import generated, alts

OWN = ("nassun", "node_maintainer", "oro_client", "orogene", "oro_common", "oro_package_spec", "oro_npm_account", "oro_pretty_json", "oro_script")
ERRS = ("serde_json::error::Error", "url::parser::ParseError", "ssri::", "SemverError", "ParseIntError", "ParseFloatError", "ParseBoolError", "ToStrError",
        "Utf8Error", "FromUtf8Error", "kdl::error", "PackageSpecError", "base64::", "FromHexError", "StripPrefixError")
WRAP = ("Option::as_ref", "Option::as_deref", "Option::as_mut", "Option::as_deref_mut", "Option::cloned", "Option::copied", "::clone", "Option::filter", "Option::map", "Option::and_then",
        "Option::inspect", "Result::map", "Result::and_then", "Result::ok", "Result::as_ref", "Result::map_err", "Option::ok_or", "Option::ok_or_else", "Option::take", "Option::zip", "Option::flatten")
# what data decides whether there is
MAYBE = tuple("core::str::" + x for x in ("find", "rfind", "split_once", "rsplit_once", "strip_prefix", "strip_suffix", "get", "to_digit")) + (
    "HeaderMap::get", "Url::host_str", "Url::host", "Url::domain", "Url::path_segments", "Url::port", "Url::fragment", "Url::query", "Url::password", "Url::to_file_path",
    "serde_json::value::Value::get", "serde_json::value::Value::get_mut", "Value::pointer", "KdlNode::get", "KdlDocument::get", "KdlDocument::get_arg", "Regex::captures", "Captures::get", "Regex::find",
    "Path::file_name", "Path::file_stem", "Path::extension", "OsStr::to_str", "Path::to_str", "Iterator::last", "Iterator::min", "Iterator::max", "Iterator::find", "Iterator::position", "Iterator::nth",
    "char::to_digit", "mime_guess::MimeGuess::first", "Integrity::pick_algorithm")
AS = re.compile(r"(serde_json::value::Value|kdl::value::KdlValue|kdl::KdlValue)::as_\w+$")
MAPS = ("HashMap::get", "HashMap::remove", "BTreeMap::get", "IndexMap::get", "IndexMap::remove", "serde_json::map::Map::get", "Map::get_mut", "BTreeMap::remove")
UNWRAP = ("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect")
TAKES = ("Vec::remove", "Vec::swap_remove", "VecDeque::remove", "String::remove", "Vec::split_off", "String::split_off")
SEQ = ("slice::first", "slice::last", "Vec::pop", "slice::get", "slice::split_first", "slice::split_last", "slice::first_mut", "slice::last_mut")
VALUES = {"Null", "Bool", "Number", "String", "Array", "Object", "Integer", "Float"}
SPECS = {"Npm", "Dir", "Git", "Alias"}
PLAIN = ("::deref", "::as_ref", "::as_str", "::borrow", "::to_owned", "::to_string", "::clone", "::as_bytes", "::into", "::from", "::as_path", "Path::new", "::index", "::into_owned", "::to_string_lossy", "::as_slice")


def bare(t):
    """a term without what does not change whether there is anything in it"""
    while True:
        if t[0] == "call" and t[2] and t[1].endswith(WRAP) and not t[1].endswith(("Option::filter", "Option::and_then", "Result::and_then", "Option::zip", "Option::flatten")):
            t = t[2][0]
        elif t[0] == "agg" and t[2] in ("Some", "Ok") and len(t[3]) == 1:
            return t
        else:
            return t


def cut_of(t):
    """(how, what) the text whose parts an iterator gives"""
    while t[0] == "call" and t[2]:
        n = t[1].split("::")
        if "core::str" in t[1] and n[-1] in ("split", "rsplit", "splitn", "rsplitn", "split_whitespace", "lines", "chars", "split_terminator", "bytes", "char_indices", "split_ascii_whitespace"):
            return n[-1], t[2][0]
        if n[-1] not in ("into_iter", "iter", "by_ref", "map", "rev", "filter", "skip", "peekable", "deref"):
            return None
        if n[-1] in ("filter", "skip"):
            return "part", t
        t = t[2][0]
    return None


def text(t):
    """the text a term is"""
    while t[0] == "call" and t[2] and len(t[2]) == 1 and t[1].endswith(PLAIN):
        t = t[2][0]
    return t


def constant(t, depth=12):
    if depth == 0:
        return False
    if t[0] in ("const", "fn"):
        return True
    if t[0] == "clo":
        return True
    if t[0] == "agg":
        return all(constant(x, depth - 1) for x in t[3].values())
    if t[0] in ("tuple", "array"):
        return all(constant(x, depth - 1) for x in t[1])
    return t[0] == "call" and bool(t[2]) and all(constant(x, depth - 1) for x in t[2])


class Data:
    def __init__(self, P):
        self.P = P
        self.adts = {f.self_ty.split("<")[0] for f in P.fns.values() if f.trait and "Deserialize" in f.trait and f.self_ty and "__" not in f.self_ty}

    def of(self, t, depth=30):
        """does a term come out of what was read?"""
        if depth == 0:
            return False
        if t[0] == "fld":
            return t[1] in self.adts or self.of(t[3], depth - 1)
        if t[0] == "await":
            return self.of(t[1], depth - 1)
        if t[0] == "call":
            if t[1].endswith(("KdlNode::entries", "KdlNode::children", "KdlDocument::nodes", "KdlNode::get", "KdlDocument::get", "KdlDocument::get_arg")) or "serde_json::de" in t[1] or "Value" in t[1] or t[1].endswith(("::text", "::packument", "::corgi_packument", "::corgi_metadata", "::metadata", "read_to_string")):
                return True
            return any(self.of(x, depth - 1) for x in t[2][:1])
        return False

    def option(self, t):
        """why the data decides whether there is something in t, None if it does not"""
        u = bare(t)
        if u[0] == "fld" and u[1] in self.adts:
            return "the %s of %s" % (u[2], u[1].split("::")[-1])
        if u[0] != "call":
            return None
        n = u[1]
        if n.endswith(("Option::and_then", "Option::filter", "Option::flatten", "Result::and_then", "Option::zip")):
            return self.option(u[2][0]) or ("a choice made of %s" % n if self.of(u[2][0]) else None)
        if n.endswith("::file_name") or n.endswith(("::file_stem", "::extension", "Path::to_str", "OsStr::to_str")):
            return "the file name of data" if self.made(u[2][0]) else None
        if n.endswith(MAYBE) and u[2]:
            if n.endswith(("Iterator::last", "Iterator::min", "Iterator::max", "Iterator::find", "Iterator::position", "Iterator::nth")):
                cut = cut_of(u[2][0])
                if cut and n.endswith(("::nth", "::last")):
                    sure = cut[0] in ("split", "rsplit", "splitn", "rsplitn") and (n.endswith("::last") or u[2][1] == ("const", 0))
                    return None if sure or constant(cut[1]) else "the parts of text"
                return "one of %s" % n.split("::")[-1] if self.of(u[2][0]) else None
            if n.endswith("Iterator::next"):
                return None
            return None if constant(u) else n.split("::", 1)[-1]
        if AS.search(n):
            return n.split("::", 1)[-1]
        if n.endswith(MAPS + SEQ) and self.of(u[2][0]):
            return n
        return None

    def made(self, t):
        """is a path only what the data says?"""
        t = text(t)
        while t[0] == "call" and t[2] and t[1].endswith(PLAIN):
            t = text(t[2][0])
        if t[0] == "fld":
            return t[1] in self.adts or t[1] == "" and not any(x[0] == "arg" for x in sym.walk(t)) and "Iter" in str(t[3])
        return t[0] == "call" and t[1].endswith(("::text",))


class Sure(MustRule):
    """what is known to be there, to be a boundary of the text or to have so many elements"""

    def __init__(self, P):
        self.P = P
        self.at, self.sites = {}, {}

    def enter(self, f):
        return False

    def sym_fact(self, f, s, val):
        if s[0] == "un" and s[1] == "Not" and val in (True, False):
            return self.sym_fact(f, s[2], not val)
        out = []
        if val in ("Some", "Ok", "Continue"):
            out.append(("there", str(bare(s))))
        if s[0] == "call" and s[2] and val in (True, False):
            n, x = s[1], s[2][0]
            if n.endswith(("Option::is_some", "Result::is_ok")) and val or n.endswith(("Option::is_none", "Result::is_err")) and not val:
                out.append(("there", str(bare(x))))
            if n.endswith("is_char_boundary") and val and not any(x[0] == "multi" for x in sym.walk(s)):
                out.append(("boundary", str(text(x)), str(s[2][1])))
            kind = re.search(r"Value::is_(\w+)$", n)
            if kind and val:
                out.append(("is", kind.group(1), str(text(x))))
            if n.endswith("contains_key") and val:
                out.append(("key", str(text(x)), str(text(s[2][1]))))
            if n.endswith("starts_with") and val:
                out.append(("starts", str(text(x)), str(s[2][1])))
            if n.endswith("is_empty") and not val:
                out.append(("atleast", str(text(x)), 1))
            if n.endswith(("Value::is_object", "Value::is_null")) and val:
                out.append(("settable", str(text(x))))
                if x[0] == "call" and x[1].endswith("::index") and len(x[2]) == 2:
                    out.append(("settable", str(text(x[2][0])), str(text(x[2][1]))))
        if s[0] == "bin" and val in (True, False) and s[3][0] == "const" and s[2][0] == "call" and s[2][1].endswith("::len") and isinstance(s[3][1], int):
            op, k = s[1], s[3][1]
            least = {("Eq", True): k, ("Ne", False): k, ("Ge", True): k, ("Gt", True): k + 1, ("Lt", False): k, ("Le", False): k + 1}.get((op, val))
            if least:
                out.append(("atleast", str(text(s[2][2][0])), least))
        return frozenset(out)

    def relevant(self, x):
        return True

    def check(self, c, st, ch, eng):
        k = (c.fn.id, c.bb)
        fs = frozenset(st.facts)
        self.at[k] = self.at[k] & fs if k in self.at else fs


def scope(P):
    run = cg.reach(P, [f for f in P.fns.values() if f.sname in ("oro::main", "orogene::Orogene::load")])
    return [f for f in P.fns.values() if f.crate in OWN and (f.id in run or "::parsers::" in f.sname) and not generated(f) and not (f.trait and ("Deserialize" in f.trait or "Visitor" in f.trait))]


def facts_at(P, fs, want):
    r = Sure(P)
    eng = Engine(P, r)
    for f in fs:
        if any(want(c) for c in f.calls()):
            eng.visit(f, frozenset(), {}, [])
    return r.at


def offset(t):
    """(term, constant) an offset is the sum of"""
    n = 0
    while True:
        if t[0] == "fld" and t[2] == "0" and t[3][0] == "bin":
            t = t[3]
        if t[0] == "bin" and t[1].startswith("Add") and t[3][0] == "const":
            n += t[3][1] if isinstance(t[3][1], int) else 0
            t = t[2]
        elif t[0] == "bin" and t[1].startswith("Add") and t[2][0] == "const":
            n += t[2][1] if isinstance(t[2][1], int) else 0
            t = t[3]
        else:
            return t, n


def found(s, t):
    """how many bytes of what is looked for are found at offset t of text s, None if it is not such an offset"""
    t = bare(t)
    while t[0] == "call" and t[1].endswith(("Option::unwrap", "Option::expect", "Option::unwrap_or", "Option::unwrap_or_else", "Option::unwrap_or_default")):
        if t[1].endswith("unwrap_or") and t[2][1] != ("const", 0) and not (t[2][1][0] == "call" and t[2][1][1].endswith("::len")):
            return None
        t = bare(t[2][0])
    if t[0] == "call" and t[1].endswith(("core::str::find", "core::str::rfind", "memchr::memchr")) and str(text(t[2][0])) == str(text(s)):
        w = t[2][1]
        return len(w[1].encode()) if w[0] == "const" and isinstance(w[1], str) else 1 if w[0] == "const" else 0
    if t[0] == "call" and t[1].endswith("::len") and t[2]:
        return 0 if str(text(t[2][0])) == str(text(s)) else None
    return None


def bound(s, t, facts, P=None):
    """can text s be cut at t?"""
    if t[0] == "const":
        return t[1] == 0 or any(x[0] == "starts" and x[1] == str(text(s)) and isinstance(t[1], int) and len(x[2]) - len("('const', '')") >= t[1] for x in facts)
    if ("boundary", str(text(s)), str(t)) in facts:
        return True
    # the length of a prefix the text starts with
    if t[0] == "call" and t[1].endswith("::len") and t[2] and any(x[0] == "starts" and x[1] == str(text(s)) and (x[2] == str(t[2][0]) or x[2] == str(text(t[2][0]))) for x in facts):
        return True
    # the first one that is a boundary
    if t[0] == "call" and t[1].endswith(("Option::unwrap_or", "Option::unwrap_or_default")) and t[2][1:] in ([("const", 0)], []):
        u = t[2][0]
        if u[0] == "call" and u[1].endswith(("::find", "::rfind")) and u[2][-1][0] == "clo" and P and u[2][-1][1] in P.fns:
            rs = list(sym.returns(P, P.fns[u[2][-1][1]]))
            if rs and all(r[0] == "call" and r[1].endswith("is_char_boundary") for r in rs):
                return True
    b, n = offset(t)
    k = found(s, b)
    return k is not None and (n == 0 or n == k)


def stringy(ty):
    return ty.lstrip("&").removeprefix("mut ").split("<")[0] in ("str", "alloc::string::String", "alloc::borrow::Cow")


def walked(f, op):
    """the local a bound is, if it is one that is only moved until it is a boundary of some text"""
    return op[1][0] if op[0] in "cm" and len(op[1]) == 1 else None


def root_local(f, op, depth=8):
    while depth and op[0] in "cm" and len(op[1]) == 1:
        ds = f.defs().get(op[1][0], [])
        if len(ds) != 1 or 0 < op[1][0] <= f.argc or isinstance(ds[0][3], Call) or ds[0][3][0] != "use" or ds[0][3][1][0] == "k" or len(ds[0][3][1][1]) != 1:
            return op[1][0]
        op, depth = ds[0][3][1], depth - 1
    return op[1][0] if op[0] in "cm" and len(op[1]) == 1 else None


def nudged(P, f, s, op, at):
    """is the bound a local that a loop leaves only when the text has a boundary there?"""
    l = root_local(f, op)
    if l is None:
        return False
    t = sym.sym_op(f, ["c", [l]])
    for b in f.rpo():
        term = f.bbs[b]["t"]
        c = f.call_at(b)
        if c is None or not c.decl.endswith("is_char_boundary"):
            continue
        if str(text(sym.sym_op(f, c.args[0]))) != str(text(s)) or root_local(f, c.args[1]) != l:
            continue
        # every way to the cut goes through the test's true side, and nothing changes the local after it
        nb = f.bbs[c.target]["t"]
        neg, b2 = False, c.target
        sw = nb if nb[0] == "switch" else None
        if sw is None:
            continue
        d = sw[1]
        neg = any(not isinstance(x[3], Call) and x[3][0] == "un" and x[3][1] == "Not" for x in f.defs().get(d[1][0], []))
        edges = {v: g for v, g in sw[2]} if isinstance(sw[2], list) else {}
        other = sw[3] if len(sw) > 3 else None
        false_to = edges.get(0, other)
        true_to = other if 0 in edges else edges.get(1)
        good = false_to if neg else true_to
        if good is None or not dominated(f, at, b2, good):
            continue
        # from there on, the local stays
        seen, todo, ok = set(), [good], True
        defs = {d[0] for d in f.defs().get(l, ())}
        while todo:
            x = todo.pop()
            if x in seen or x == b:
                continue
            seen.add(x)
            if x in defs and at in reach_from(f, x):
                ok = False
            if x != at:
                todo += f.succ(x)
        if ok:
            return True
    return False


def moved(P, s, t):
    """does a function of the program give back only boundaries of the text it is given?"""
    if t[0] != "call" or not t[2]:
        return False
    for g in P.fns.values():
        if g.sname != t[1] or g.crate not in OWN:
            continue
        ks = [k for k, a in enumerate(t[2]) if str(text(a)) == str(text(s))]
        rets = [b for b in g.rpo() if g.bbs[b]["t"][0] == "ret"]
        return bool(ks) and bool(rets) and all(any(nudged(P, g, ("arg", g.id, k + 1), ["c", [0]], b) for k in ks) for b in rets)
    return False


def reach_from(f, b):
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += f.succ(x)
    return seen


def dominated(f, at, frm, to):
    """is the edge frm -> to on every way to at?"""
    seen, todo = set(), [0]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == at:
            return False
        todo += [y for y in f.succ(x) if not (x == frm and y == to)]
    return True


def index_kind(c, f):
    if not c.decl.endswith(("Index::index", "IndexMut::index_mut", "str::traits::index", "core::str::split_at") + TAKES):
        return None
    if len(c.args) < 2 or c.args[0][0] == "k":
        return None
    return f.lty(c.args[0][1][0]) if len(c.args[0][1]) == 1 else None


def check(ctx):
    P = ctx.P
    D = Data(P)
    ctx.rule("there", "what only an answer, a package or a file decides is not taken to be there unless every way to that place has made sure of it")
    ctx.rule("parsed", "text that was read is not taken to parse")
    ctx.rule("cut", "text is cut only at offsets that are known to be boundaries of it, in order, and elements are taken only from where they are known to be")
    ctx.rule("panic", "a panic on the program's own mistakes is never reached through a kind of request, answer or package that there is")
    fs = scope(P)

    def want(c):
        return c.decl.endswith(UNWRAP) or c.decl.endswith(("::index", "::index_mut", "::split_at") + TAKES)
    at = facts_at(P, fs, want)
    for f in fs:
        sn = P.root_of(f).sname
        for c in f.calls():
            here = at.get((f.id, c.bb), frozenset())
            if c.decl.endswith(UNWRAP) and c.args and c.args[0][0] != "k":
                unwrap(ctx, P, D, f, sn, c, here)
            ty = index_kind(c, f)
            if ty:
                index(ctx, P, D, f, sn, c, ty, here)
            if "panicking::" in c.decl and not c.decl.endswith(("panic_nounwind", "assert_failed")):
                panic(ctx, P, D, f, sn, c)
    ctx.floor("there", 3)
    ctx.floor("parsed", 6)
    ctx.floor("cut", 6)
    ctx.floor("panic", 12)


def payload(ty):
    return ty[ty.find("<") + 1:-1]


def unwrap(ctx, P, D, f, sn, c, here):
    ty = f.lty(c.args[0][1][0]) if len(c.args[0][1]) == 1 else ""
    t = sym.sym_op(f, c.args[0])
    known = ("there", str(bare(t))) in here
    if ty.startswith("core::result::Result"):
        inner = payload(ty)
        err = next((e for e in ERRS if e in inner.rsplit(", ", 1)[-1]), None)
        if not err:
            return
        if t[0] == "call" and (t[1].startswith("serde_json::ser::") or t[1].endswith("serde_json::value::to_value") or t[1].endswith("StripPrefixError") or t[1].endswith("Path::strip_prefix") and not D.of(t[2][1])):
            return
        if own_header(t):
            return
        ok = known or constant(t) or constant_host(P, f, t)
        ctx.ob("parsed", "%s: %s" % (sn, short(t)), ok, c.where, "%s that is not what it is taken to be makes this panic" % short(t))
        return
    why = D.option(t)
    if not why or own_header(t):
        return
    ok = known or kept(t) or tested(t, here) or filtered(P, f, t) or keyed(t, here) or at_found(t)
    ctx.ob("there", "%s: %s" % (sn, why), ok, c.where, "there may be none of %s" % why)


def tested(t, here):
    """was it asked of what kind it is, or how many there are?"""
    u = bare(t)
    if u[0] != "call" or not u[2]:
        return False
    if AS.search(u[1]):
        return ("is", u[1].split("::as_")[-1], str(text(u[2][0]))) in here
    return u[1].endswith(SEQ) and "::get" not in u[1] and any(x[0] == "atleast" and x[1] == str(text(u[2][0])) and x[2] > 0 for x in here)


def own_header(t):
    """a header of the program's own request"""
    return any(x[0] == "call" and x[1].endswith("Request::headers") for x in sym.walk(t))


def kept(t):
    """what is left by a filter that keeps only what it then is"""
    u = t
    while u[0] == "call" and u[2]:
        if AS.search(u[1]):
            want = "is_" + u[1].split("::as_")[-1]
            return any(x[0] == "fn" and x[1].endswith(want) or x[0] == "call" and x[1].endswith(want) for x in sym.walk(u))
        u = u[2][0]
    return False


def filtered(P, f, t):
    """an element of what a filter kept because it is what it is then taken to be"""
    u = bare(t)
    if not (u[0] == "call" and AS.search(u[1])) or "{closure" not in f.sname:
        return False
    want = "is_" + u[1].split("::as_")[-1]
    for g in P.fns.values():
        if P.root_of(g) is P.root_of(f):
            for c in g.calls():
                if c.decl.endswith(("Iterator::map", "Iterator::filter_map", "Iterator::for_each")) and len(c.args) == 2 and sym.sym_op(g, c.args[1])[:2] == ("clo", f.id):
                    it = sym.sym_op(g, c.args[0])
                    return any(x[0] == "call" and x[1].endswith("Iterator::filter") and x[2][1][0] == "clo" and x[2][1][1] in P.fns and
                               any(d.decl.endswith(want) for d in P.fns[x[2][1][1]].calls()) for x in sym.walk(it))
    return False


def keyed(t, here):
    u = bare(t)
    return u[0] == "call" and len(u[2]) > 1 and ("key", str(text(u[2][0])), str(text(u[2][1]))) in here


def at_found(t):
    """the character at an offset the text was just searched for"""
    u = bare(t)
    if not (u[0] == "call" and u[1].endswith("str::get") and len(u[2]) == 2 and u[2][1][0] == "agg"):
        return False
    r = u[2][1][3]
    s, e = r.get("start"), r.get("end")
    return s is not None and e is not None and offset(e) == (s, 1) and s[0] == "arg" and "{closure" in str(s[1])


def constant_host(P, f, t):
    """an address whose beginning is written down"""
    if not (t[0] == "call" and t[1].endswith(("str::parse", "Url::parse")) and t[2]):
        return False
    x = text(t[2][0])
    vals = [x]
    if x[0] == "arg" and x[1] in P.fns and "{closure" in P.fns[x[1]].sname:
        g = P.fns[x[1]]
        for h in P.fns.values():
            if P.root_of(h) is not P.root_of(g):
                continue
            for c in h.calls():
                if c.decl.endswith("Option::map") and len(c.args) == 2 and sym.sym_op(h, c.args[1])[:2] == ("clo", g.id):
                    vals = [z for y in sym.multi(P, sym.sym_op(h, c.args[0])) for z in inner(P, y)]
    return bool(vals) and all(any(y[0] == "const" and isinstance(y[1], str) and re.search(r"https?://[a-z.]+/", y[1]) for y in sym.walk(v)) for v in vals)


def inner(P, t):
    if t[0] == "agg" and t[2] == "Some":
        yield from sym.multi(P, t[3]["0"])
    elif t[0] == "call" and t[1].endswith("Option::map") and t[2][1][0] == "clo" and t[2][1][1] in P.fns:
        yield from sym.returns(P, P.fns[t[2][1][1]])
    else:
        yield t


def short(t):
    if t[0] == "call":
        return t[1].split("::")[-1] + " of " + (short(t[2][0]) if t[2] else "nothing")
    return str(t[2] if t[0] == "fld" else t[0])


def index(ctx, P, D, f, sn, c, ty, here):
    s, i = sym.sym_op(f, c.args[0]), sym.sym_op(f, c.args[1])
    if "serde_json::value::Value" in ty.split("<")[0]:
        if not c.decl.endswith("index_mut"):
            return
        ok = any(x[0] == "settable" and x[1] == str(text(s)) and x[2:] in ((), (str(text(i)),)) for x in here)
        if s[0] == "call" and s[1].endswith("::index_mut") and len(s[2]) == 2:
            ok = ok or ("settable", str(text(s[2][0])), str(text(s[2][1]))) in here
        ctx.ob("cut", "%s: a value's member is set" % sn, ok, c.where, "a value that is no object makes this panic")
        return
    if "serde_json::map::Map" in ty:
        ok = ("key", str(text(s)), str(text(i))) in here
        ctx.ob("cut", "%s: member of an object" % sn, ok, c.where, "a member that is not there makes this panic")
        return
    if "HashMap" in ty.split("<")[0] or "BTreeMap" in ty.split("<")[0] or "IndexMap" in ty.split("<")[0]:
        if not D.of(s):
            return
        ctx.ob("cut", "%s: entry of a map" % sn, ("key", str(text(s)), str(text(i))) in here, c.where, "an entry that is not there makes this panic")
        return
    if c.decl.endswith("split_at"):
        ctx.ob("cut", "%s: split" % sn, bound(s, i, here), c.where, "text may not have a boundary there")
        return
    if i[0] == "agg" and "ops::range::" in i[1]:
        if i[2] == "RangeFull":
            ctx.ob("cut", "%s: all of it" % sn, True, c.where, "")
            return
        st, en = i[3].get("start"), i[3].get("end")
        if stringy(ty):
            ops = range_ops(f, c)
            good = all(x is None or bound(s, x, here, P) or moved(P, s, x) or k in ops and nudged(P, f, s, ops[k], c.bb) for k, x in (("start", st), ("end", en)))
            if st is not None and en is not None and st != ("const", 0) and good:
                good = offset(st)[0] == offset(en)[0] and offset(st)[1] <= offset(en)[1] or spaced(P, f, st, en)
            ctx.ob("cut", "%s: text" % sn, good, c.where, "text read may have no boundary there, or the offsets may be the wrong way round")
            return
        if st is None and any(x[0] == "call" and x[1].endswith(("::read", "::poll_read")) for x in sym.walk(en)):
            ctx.ob("cut", "%s: what was read" % sn, True, c.where, "")
            return
        if en is not None and en[0] == "const" and st is None or st is not None and st[0] == "const" and en is None:
            k = (en or st)[1]
            ok = k == 0 or any(x[0] == "atleast" and x[1] == str(text(s)) and x[2] >= k for x in here)
            if not ok and not (D.of(s) or split(s)):
                return
            ctx.ob("cut", "%s: elements" % sn, ok, c.where, "there may be fewer elements")
        return
    if c.decl.endswith(TAKES) or f.lty(c.args[1][1][0]) == "usize" if c.args[1][0] in "cm" and len(c.args[1][1]) == 1 else c.args[1][0] == "k":
        if "petgraph" in ty or "Graph" in ty[:60] or not (D.of(s) or split(s)):
            return
        last = i[0] == "fld" and i[3][0] == "bin" and i[3][1].startswith("Sub") and i[3][3] == ("const", 1) and i[3][2][0] == "call" and i[3][2][1].endswith("::len") and str(text(i[3][2][2][0])) == str(text(s))
        ok = last and any(x[0] == "atleast" and x[1] == str(text(s)) for x in here) or i[0] == "const" and (i[1] == 0 and split(s) == "split" or any(x[0] == "atleast" and x[1] == str(text(s)) and x[2] > i[1] for x in here))
        ctx.ob("cut", "%s: element" % sn, ok, c.where, "there may be fewer elements")


def split(t):
    """were the elements of t split off of text?"""
    for x in sym.walk(t):
        if x[0] == "call" and x[1].startswith("core::str::") and ("split" in x[1] or "lines" in x[1] or x[1].endswith(("::chars", "::bytes", "as_bytes"))):
            return "split" if x[1].endswith(("core::str::split", "core::str::splitn")) else "other"
    return None


def spaced(P, f, st, en):
    """the later bound is only ever moved up from what the earlier one was moved down from"""
    def roots(t, up):
        out, ok = set(), True
        for x in sym.multi(P, t):
            b, n = offset(x)
            if b == t:
                continue
            out.add(str(b))
        return out
    a = {str(x) for t in sym.multi(P, st) for x in sym.walk(t) if x[0] == "call" and x[1].endswith("::offset")}
    b = {str(x) for t in sym.multi(P, en) for x in sym.walk(t) if x[0] == "call" and x[1].endswith("::offset")}
    return bool(a & b)


def range_ops(f, c):
    o = c.args[1]
    for _ in range(4):
        if o[0] not in "cm" or len(o[1]) != 1:
            return {}
        d = f.defs().get(o[1][0], [])
        if len(d) != 1 or isinstance(d[0][3], Call):
            return {}
        rv = d[0][3]
        if rv[0] == "use":
            o = rv[1]
            continue
        if rv[0] == "agg":
            name = rv[1].get("adt", "") if isinstance(rv[1], dict) else ""
            ks = {"Range": ("start", "end"), "RangeTo": ("end",), "RangeFrom": ("start",)}.get(name.split("::")[-1], ())
            return dict(zip(ks, rv[2]))
        return {}
    return {}


def kinds(term):
    """is the kind of request looked at that an alias stands for?"""
    return any(x[0] == "call" and x[1].endswith(("PackageSpec::target", "PackageSpec::target_mut")) for x in sym.walk(term))


def panic(ctx, P, D, f, sn, c):
    name = "%s: %s" % (sn, c.decl.split("::")[-1])
    if c.decl.endswith(("todo_default_msg", "unimplemented_default_msg")) or unfinished(f, c):
        ctx.ob("panic", name, False, c.where, "what is not implemented panics instead of failing")
        return
    root = P.root_of(f).sname
    own = {"DirFetcher": "Dir", "GitFetcher": "Git", "NpmFetcher": "Npm"}.get(next((x for x in ("DirFetcher", "GitFetcher", "NpmFetcher") if x in root), ""), None)
    bad, asked = None, []
    for term, vals in tables.conds(f, c.bb):
        vs = {v for v in vals if isinstance(v, str)} if isinstance(vals, (list, tuple, set)) else set()
        if vs and vs <= SPECS:
            of = any(x[0] == "call" and x[1].endswith("Package::resolved") for x in sym.walk(term))
            whole = [y for y in alts(P, f, term, 2)]
            asked.append((vs, of or all(kinds(y) for y in whole) or any(y[0] == "fld" and y[2] == "spec" for y in whole)))
        elif vs & {"None", "Err", "Break"}:
            why = D.option(term)
            if why:
                bad = "there may be none of %s" % why
            elif vs & {"Err", "Break"} and term[0] == "call" and term[1].endswith(("serde_json::de::from_str", "serde_json::de::from_slice", "str::parse", "Url::parse", "HeaderValue::to_str", "String::from_utf8")) and not constant(term):
                bad = "what does not parse makes this panic"
        elif term[0] == "fld" and term[1] in D.adts and vs:
            bad = "a kind of %s makes this panic" % term[2]
        elif vs and vs <= VALUES and vs != {"Null"}:
            bad = "a value of another kind makes this panic"
    if asked and own:
        if all(own in vs for vs, _ in asked):
            bad = "a request of the fetcher's own kind (%s) makes this panic" % own
        elif all("Alias" in vs and not through for vs, through in asked):
            bad = "an alias makes this panic: what it stands for is not looked at"
    ctx.ob("panic", name, bad is None, c.where, bad or "")


def unfinished(f, c):
    return any(x[0] == "const" and isinstance(x[1], str) and x[1].startswith(("not yet implemented", "not implemented")) for a in c.args for x in sym.walk(sym.sym_op(f, a)))
