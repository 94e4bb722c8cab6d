"""Configured options mean what they would mean on the command line, and the command line wins."""
from .. import sym
from ..cg import callers, reach
from ..must import MustRule, Engine
from ..model import Call

ORO = "orogene::Orogene"
OPTS = "oro_config::OroConfigOptions"
ARGMUT = ("::push", "::insert", "::extend", "::append", "::splice", "::extend_from_slice", "::resize")


def inst(P, f, t):
    return [y[0] for y in sym.instances(P, f, [t])]


def template(s):
    """the literal pieces of a format template: text, and None for an argument"""
    out, i = [], 0
    while i < len(s):
        n = ord(s[i])
        if n == 0:
            break
        if n >= 128 or n == 0xfffd:
            out.append(None)
            i += 1
            continue
        out.append(s[i + 1:i + 1 + n])
        i += 1 + n
    return out


def is_args(f, o):
    return o[0] in "cm" and "Vec<" in f.lty(o[1][0]) and "OsString" in f.lty(o[1][0])


def pushed(P, f, o):
    """what kind of thing is pushed: name, both (--name=value), no, value"""
    kinds = set()
    ts = set()
    for t in sym.multi(P, sym.sym_op(f, o)):
        ts.add(repr(t))
        top = t
        while top[0] == "call" and top[2] and top[1].rsplit("::", 1)[-1] in ("must_use", "format", "from", "into", "new", "to_string", "clone", "into_os_string") and "fmt::Arguments" not in top[1]:
            top = top[2][0]
        ks = [x for x in sym.walk(top)] if top[0] == "call" and "Arguments" in top[1] else []
        tm = [template(x[2][0][1]) for x in ks[:1] if x[2] and x[2][0][0] == "const" and isinstance(x[2][0][1], str)]
        if tm and tm[0] and tm[0][0] and tm[0][0].startswith("--"):
            p = tm[0]
            if p[0] == "--":
                kinds.add("both" if any(x and "=" in x for x in p[1:]) else "name")
            elif p[0] == "--no-":
                kinds.add("no")
            else:
                kinds.add("other")
        elif top[0] == "const" and isinstance(top[1], str) and top[1].startswith("-"):
            kinds.add("other")
        else:
            kinds.add("value")
    return kinds


class Layer(MustRule):
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.kseen = set()

    def relevant(self, x):
        return True

    def enter(self, f):
        return f.crate == "oro_config" and not f.derived

    def scan(self, s):
        """a search of what's given for the option or its negation"""
        if s[0] != "call" or s[3].endswith("Layer::layered_args"):
            return False
        if not (s[1].startswith("oro_config") or s[1].endswith(("Iterator>::any", "Iterator::any"))):
            return False
        cs = {x for y in [s] + sym.expand(self.P, s) for x in sym.deep_consts(self.P, y)}
        g = self.P.named(s[1])
        for h in g:
            for k in reach(self.P, [h]):
                for c in self.P.fns[k].calls() if k in self.P.fns else ():
                    for a in c.args:
                        t = sym.sym_op(c.fn, a)
                        if t[0] == "const":
                            cs.add(t[1])
        return {"--", "no-"} <= cs

    def sym_fact(self, f, s, val):
        if s[0] == "un" and s[1] == "Not" and val in (True, False):
            return self.sym_fact(f, s[2], not val)
        if s[0] == "bin" and s[1] in ("BitAnd", "And") and val is True:
            return self.sym_fact(f, s[2], True) | self.sym_fact(f, s[3], True)
        if s[0] == "bin" and s[1] in ("BitOr", "Or") and val is False:
            return self.sym_fact(f, s[2], False) | self.sym_fact(f, s[3], False)
        if s[0] == "call" and s[1].endswith("ArgMatches::value_source") and val in ("None", "DefaultValue", "EnvVariable"):
            return frozenset([("novs",)])
        if val in (True, False) and s[0] == "call":
            m = s[1].rsplit("::", 1)[-1]
            if m in ("eq", "ne") and any(x[0] == "call" and x[1].endswith("ArgMatches::value_source") for x in sym.walk(s)) and any(x[0] == "agg" and x[2] == "CommandLine" for x in sym.walk(s)):
                return frozenset([("novs",)] if val == (m == "ne") else [])
            if m == "takes_values":
                return frozenset([("valued",) if val else ("flag",)])
            if s[1].endswith(("Config::get_bool", "config::Config::get")):
                return frozenset([("yes",) if val else ("no",)])
            if val is False and self.scan(s):
                return frozenset([("unseen",)])
        if s[0] == "call" and val == "None" and s[1].endswith(("Iterator>::position", "Iterator::position")):
            return frozenset([("split",)])
        return frozenset()

    def gen(self, c, st, eng):
        m = c.res.rsplit("::", 1)[-1]
        if c.args and is_args(c.fn, c.args[0]):
            if m in ("split_off", "drain", "truncate") and self.dashes(c):
                return frozenset([("split",)]), {}
            if m in ("extend", "append", "push", "splice"):
                ks = self.kinds(c)
                if m in ("extend", "append", "splice") and any(x[0] == "call" and x[1].endswith(("::split_off", "::drain")) for t in sym.multi(self.P, sym.sym_op(c.fn, c.args[-1])) for x in sym.walk(t)):
                    return frozenset([("joined",)]), {}
                if "value" in ks or "both" in ks:
                    return frozenset([("clean",)]), {}
        return frozenset(), {}

    def dashes(self, c):
        return any("--" in {x for y in [t] + sym.expand(self.P, t) for x in sym.deep_consts(self.P, y)} for a in c.args[1:] for t in [sym.sym_op(c.fn, a)])

    def entry(self, c, t):
        """an entry of a table is its name, an =, and its value"""
        for x in sym.walk(t):
            if x[0] == "call" and x[1].endswith("fmt::Arguments::new") and len(x[2]) > 1 and x[2][0][0] == "const" and isinstance(x[2][0][1], str):
                tm = template(x[2][0][1])
                args = list(x[2][1][1]) if x[2][1][0] == "array" else []
                eq = [i for i, p in enumerate(tm) if p and "=" in p]
                if not eq or len(args) != tm.count(None):
                    return
                n = tm[:eq[0]].count(None)
                for i, a in enumerate(args):
                    while a[0] == "call" and a[2]:
                        a = a[2][0]
                    if a[0] == "fld" and a[1] == "" and a[2] in ("0", "1"):
                        self.ctx.ob("layer", "an entry's name and value", (a[2] == "1") == (i >= n), c.where, "a table's names and values are mixed up")
                return

    def kinds(self, c):
        return pushed(self.P, c.fn, c.args[-1])

    def kill(self, f, c, st):
        if ("joined",) in self.gen(c, st, None)[0]:
            return frozenset(x for x in st.facts if x[0] != "split")
        if c.args and is_args(f, c.args[0]) and c.res.endswith(ARGMUT) and ("valued",) in st.facts and self.kinds(c) & {"name"}:
            return frozenset(x for x in st.facts if x[0] != "clean")
        return st.facts

    def check(self, c, st, ch, eng):
        P, f = self.P, c.fn
        if c.args and is_args(f, c.args[0]) and c.res.endswith(ARGMUT):
            if any(x[0] == "call" and x[1].endswith(("::split_off", "::drain")) for t in sym.multi(P, sym.sym_op(f, c.args[-1])) for x in sym.walk(t)):
                return
            ks = self.kinds(c)
            for k in ks:
                self.kseen.add(k)
                nm = {"name": "an option", "both": "an option with its value", "no": "a negation", "value": "a value"}.get(k, "something else")
                ob = lambda r, ok, why: self.ctx.ob("layer", "%s: %s" % (r, nm), ok, c.where, why)
                ob("not on the command line", ("novs",) in st.facts, "a configured option is added though the command line has it")
                ob("nor its negation", ("unseen",) in st.facts, "a configured option is added though the command line has it or its negation")
                ob("before --", ("split",) in st.facts or c.res.endswith("::insert") and self.dashes(c), "a configured option is added after `--`, where it's an argument")
                if k == "name":
                    ob("flag only if on", ("valued",) in st.facts or ("flag",) in st.facts and ("yes",) in st.facts, "a flag that takes no value is added though it's off")
                    ob("value not pending", ("clean",) in st.facts or ("flag",) in st.facts, "an option is added, but not its value")
                if k == "no":
                    ob("only flags that are off", ("no",) in st.facts and ("flag",) in st.facts, "a negation is added for what is not off, or takes a value")
                if k in ("value", "both"):
                    ts = sym.multi(P, sym.sym_op(f, c.args[-1]))
                    cfg = all(any(x[0] == "call" and x[1].startswith("config::config::Config::get_") for y in inst(P, f, t) for x in sym.walk(y)) or t[0] == "arg" for t in ts)
                    for t in ts:
                        self.entry(c, t)
                    ob("from the configuration", cfg, "a value is added that is not the configured one")
                if k == "other":
                    ob("known", False, "something that is neither the option nor its value is added")


def option_name(P, f, t):
    """the key derives from the argument's id, with dashes for underscores"""
    xs = [x for y in inst(P, f, t) for x in sym.walk(y)]
    xs += [x for y in list(inst(P, f, t)) for z in sym.expand(P, y) for x in sym.walk(z)]
    idd = any(x[0] == "call" and x[1].endswith(("Arg::get_id",)) for x in xs)
    rep = any(x[0] == "call" and x[1].endswith("::replace") and ("const", "_") in x[2] and ("const", "-") in x[2] and x[2].index(("const", "_")) < x[2].index(("const", "-")) for x in xs)
    return idd, rep


class Load(MustRule):
    """the order of the sources"""
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.seen = set()

    def relevant(self, x):
        return True

    def enter(self, f):
        return f.crate == "oro_config" and not f.derived

    def which(self, f, o):
        out = set()
        for t in sym.multi(self.P, sym.sym_op(f, o)):
            for y in inst(self.P, f, t):
                k = None
                for x in sym.walk(y):
                    if x[0] == "fld" and x[1] == OPTS and x[2] == "pkg_root":
                        k = k or "project"
                    if x[0] == "fld" and x[1] == OPTS and x[2] == "global_config_file":
                        k = k or "user"
                    if x[0] == "call" and x[1].endswith("Environment::with_prefix"):
                        k = k or "environment"
                out.add(k)
        return out

    def sym_fact(self, f, s, val):
        if s[0] == "un" and s[1] == "Not" and val in (True, False):
            return self.sym_fact(f, s[2], not val)
        if s[0] == "fld" and s[1] == OPTS:
            if s[2] == "env" and val is False:
                return frozenset([("done", "environment")])
            if s[2] == "global" and val is False or s[2] == "global_config_file" and val == "None":
                return frozenset([("done", "user")])
            if s[2] == "pkg_root" and val == "None":
                return frozenset([("done", "project"), ("noproj",)])
        return frozenset()

    def gen(self, c, st, eng):
        if c.res.endswith("ConfigBuilder::add_source"):
            w = self.which(c.fn, c.args[1])
            if len(w) == 1:
                return frozenset([("done", list(w)[0])]), {}
        return frozenset(), {}

    def kill(self, f, c, st):
        if c.res.endswith("ConfigBuilder::add_source") and self.which(f, c.args[1]) - {"user", "environment"}:
            return frozenset(x for x in st.facts if x[0] != "noproj")
        return st.facts

    def check(self, c, st, ch, eng):
        f, P = c.fn, self.P
        if c.res.endswith("ConfigBuilder::add_source"):
            for w in self.which(f, c.args[1]):
                if w is None:
                    continue
                self.seen.add(w)
                if w != "project":
                    self.ctx.ob("sources", "the %s before the project" % ("user's file" if w == "user" else w), ("noproj",) in st.facts, c.where, "the project's oro.kdl is overridden")
                t = sym.sym_op(f, c.args[1])
                xs = [x for y in sym.multi(P, t) for z in inst(P, f, y) for x in sym.walk(z)]
                xs += [x for y in sym.multi(P, t) for z in inst(P, f, y) for w_ in sym.expand(P, z) for x in sym.walk(w_)]
                if w == "environment":
                    pre = [x for x in xs if x[0] == "call" and x[1].endswith("Environment::with_prefix")]
                    self.ctx.ob("sources", "prefix", all(x[2][0] == ("const", "oro_config") for x in pre), c.where, "the variables' prefix is not oro_config_")
                    self.ctx.ob("sources", "dashes", dashed(P, xs), c.where, "the underscores of a variable's name are not taken for an option's dashes")
                else:
                    req = [x for x in xs if x[0] == "call" and x[1].endswith("File::required")]
                    self.ctx.ob("sources", "%s may be missing" % w, bool(req) and all(x[2][1] == ("const", False) for x in req), c.where, "a missing configuration file is an error")
                    self.ctx.ob("sources", "%s is KDL" % w, any(x[0] == "agg" and "KdlFormat" in x[1] for x in xs), c.where, "a configuration file is not read as KDL")
                    if w == "project":
                        self.ctx.ob("sources", "name of the project's file", any(x == ("const", "oro.kdl") for x in xs), c.where, "the project's file is not oro.kdl")
        if c.res.endswith("ConfigBuilder::build"):
            for w in ("user", "environment", "project"):
                self.ctx.ob("sources", "%s is used" % w, ("done", w) in st.facts, c.where, "a source of configuration is left out")
            b = [x for t in sym.multi(P, sym.sym_op(f, c.args[0])) for y in inst(P, f, t) for x in sym.walk(y)]
            self.ctx.ob("sources", "defaults are used", any(x[0] == "fld" and x[1] == OPTS and x[2] == "builder" for x in b), c.where, "the defaults are left out")


def dashed(P, xs):
    """the source is made of the environment by way of a Source that renames, or is told to use dashes"""
    for x in xs:
        if x[0] == "call" and "convert_case" in x[1]:
            return any(y[0] == "agg" and y[2] == "Kebab" for y in sym.walk(x))
        if x[0] == "agg" and x[1].startswith("oro_config"):
            for f in P.fns.values():
                if f.self_ty and f.self_ty.endswith(x[1].rsplit("::", 1)[1]) and (f.trait or "").endswith("Source") and "collect" in f.sname:
                    return renames(P, f)
    return False


def renames(P, f):
    for k in reach(P, [f]):
        g = P.fns.get(k)
        for c in g.calls() if g else ():
            if c.res.endswith("str::replace"):
                a = [sym.sym_op(g, o) for o in c.args]
                if a[1] in (("const", "_"), ("const", 95)) and a[2] == ("const", "-"):
                    return True
    return False


class Cfg(MustRule):
    """which files the configuration is loaded from"""
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.n = 0

    def relevant(self, x):
        return True

    def enter(self, f):
        return f.crate == "orogene" and not f.derived and "FromArgMatches" not in (f.trait or "")

    def sym_fact(self, f, s, val):
        if s[0] == "fld" and (s[1], s[2]) == (ORO, "config") and val in ("Some", "None"):
            return frozenset([("given",) if val == "Some" else ("not given",)])
        if s[0] == "call" and s[1].endswith(("Option::is_some", "Option::is_none")) and val in (True, False) and s[2] and s[2][0][0] == "fld" and (s[2][0][1], s[2][0][2]) == (ORO, "config"):
            return frozenset([("given",) if val == s[1].endswith("is_some") else ("not given",)])
        return frozenset()

    def terms(self, c):
        o = c.args[1]
        return [y for t in sym.multi(self.P, sym.sym_op(c.fn, o)) for y in inst(self.P, c.fn, t)]

    def own(self, c):
        return [any(x[0] == "fld" and (x[1], x[2]) == (ORO, "config") for x in sym.walk(y)) for y in self.terms(c)]

    def gen(self, c, st, eng):
        if c.res == OPTS + "::global_config_file":
            return frozenset([("file",)] + ([("root",)] if all(self.own(c)) else [])), {}
        if c.res == OPTS + "::pkg_root":
            return frozenset([("root",)]), {}
        return frozenset(), {}

    def kill(self, f, c, st):
        if c.res == OPTS + "::new":
            return frozenset(x for x in st.facts if x[0] not in ("file", "root"))
        return st.facts

    def check(self, c, st, ch, eng):
        P, f = self.P, c.fn
        ob = self.ctx.ob
        if c.res == OPTS + "::load":
            self.n += 1
            ob("files", "what is loaded", ("file",) in st.facts and ("root",) in st.facts, c.where, "not all of the configuration is loaded: the file of --config, or the user's and the project's")
        if c.res == OPTS + "::global_config_file":
            ok = all(("given",) in st.facts if o else ("not given",) in st.facts for o in self.own(c))
            ob("files", "with --config only that file", ok, c.where, "with --config, another file is loaded")
        if c.res == OPTS + "::pkg_root":
            ob("files", "with --config not the project's", ("not given",) in st.facts, c.where, "with --config, the project's oro.kdl is loaded, too")
        if c.res == OPTS + "::pkg_root":
            for t in self.terms(c):
                xs = list(sym.walk(t))
                some = t[0] != "agg" or t[2] != "None"
                det = any(x[0] == "call" and x[1].endswith("env::current_dir") for x in xs)
                ms = [m for x in xs if x[0] == "multi" for m in spread(P, x)]
                det = det or any(x[0] == "call" and x[1].endswith("env::current_dir") for m in ms for x in sym.walk(m))
                own = any(x[0] == "fld" and (x[1], x[2]) == (ORO, "root") for m in [t] + ms for x in sym.walk(m))
                vs = any("value_source" in d.res and sym.sym_op(f, d.args[1]) == ("const", "root") for d in f.calls())
                ob("files", "the project's file", some and (det or own and vs), c.where, "the project's oro.kdl is not looked for where the project is")
                ob("files", "the project is found", det or self.other_det(f), c.where, "the project's oro.kdl is not looked for in the project the current directory is in")
        if c.res == OPTS + "::set_default":
            k = sym.sym_op(f, c.args[1])
            v = [x for t in sym.multi(P, sym.sym_op(f, c.args[2])) for x in sym.walk(t)]
            v += [x for y in v if y[0] == "multi" for m in spread(P, y) for x in sym.walk(m)]
            if k == ("const", "root"):
                ob("files", "default root", any(x[0] == "call" and x[1].endswith("env::current_dir") for x in v), c.where, "the default root is not found from the current directory")
            if k == ("const", "cache"):
                cs = any(x[0] == "call" and x[1].endswith("cache_dir") for x in v) or any(x[0] == "clo" and any(d.res.endswith("cache_dir") for d in P.fns[x[1]].calls()) for x in v if x[0] == "clo" and x[1] in P.fns)
                ob("files", "default cache", cs, c.where, "the default cache is not in the user's cache directory")

    def other_det(self, f):
        def cwd(t):
            return any(x[0] == "call" and x[1].endswith("env::current_dir") for m in [t] + spread(self.P, t) for x in sym.walk(m))
        return any(c.res == OPTS + "::pkg_root" and any(cwd(t) for t in self.terms(c)) for c in f.calls())


def spread(P, t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if repr(x) in seen or len(seen) > 60:
            continue
        seen.add(repr(x))
        for m in sym.multi(P, x):
            out.append(m)
            todo += [y for y in sym.walk(m) if y[0] == "multi"]
    return out


class Final(MustRule):
    """the arguments the program runs with have the configured ones"""
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.n = 0

    def relevant(self, x):
        return True

    def enter(self, f):
        return f.crate == "orogene" and not f.derived

    def sym_fact(self, f, s, val):
        if s[0] == "call" and s[1].endswith("VecDeque::pop_front") and val == "None":
            return frozenset([("bottom",)])
        return frozenset()

    def gen(self, c, st, eng):
        if c.decl.endswith("OroConfigLayerExt::layered_args") or c.res.endswith("OroConfigLayerExt>::layered_args"):
            return frozenset([("layered",)]), {}
        return frozenset(), {}

    def kill(self, f, c, st):
        if "Command::find_subcommand" in c.res:
            return frozenset(x for x in st.facts if x[0] != "layered")
        return st.facts

    def check(self, c, st, ch, eng):
        if c.res == ORO + "::execute" or c.decl.endswith("OroCommand::execute") and "Orogene" in (c.res or ""):
            self.n += 1
            self.ctx.ob("final", "before running", ("layered",) in st.facts, c.where, "the command runs without its configured options")


def check(ctx):
    P = ctx.P
    ctx.rule("layer", "an option is added to the arguments only when neither it nor its negation is given, before `--`; a flag that takes no value as itself or its negation, any other with its configured value")
    ctx.rule("key", "what is asked of the configuration is the option's name, with dashes for underscores")
    ctx.rule("given", "the search for what is given knows options, negations and values joined by `=`")
    ctx.rule("sources", "the user's file and the environment come before the project's oro.kdl, each is used when it is there, and may be missing")
    ctx.rule("files", "with --config only that file is loaded, otherwise the user's and the project's, which is looked for in the project's root")
    ctx.rule("values", "each kind of KDL value keeps its kind; nodes become values, arrays and tables of all they have")
    ctx.rule("negation", "every long option has a negation that overrides it")
    ctx.rule("final", "the program and each subcommand on the way get their configured options, and what runs is parsed from those arguments")
    crate = [f for f in P.fns.values() if f.crate == "oro_config" and not f.derived]
    roots = [f for f in crate if f.sname.endswith("::layered_args") and "{closure" not in f.sname]
    r = Layer(ctx)
    Engine(P, r).run(roots, frozenset([("clean",)]))
    inside = set(reach(P, roots))
    w0 = "%s:%s" % (roots[0].file, roots[0].line) if roots else ""
    for k, n in ((("name", "both"), "options"), (("no",), "negations"), (("value", "both"), "values")):
        ctx.ob("layer", "%s are added" % n, bool(r.kseen & set(k)), w0, "configured %s are not added to the arguments" % n)
    for f in crate:
        if f.id not in inside:
            continue
        for c in f.calls():
            if c.res.startswith("config::config::Config::get"):
                idd, rep = option_name(P, f, sym.sym_op(f, c.args[1]))
                m = c.res.rsplit("::", 1)[1]
                ctx.ob("key", "%s by the option's name" % m, idd, c.where, "the configuration is asked for something other than the option")
                ctx.ob("key", "%s with dashes" % m, rep, c.where, "an option with an underscore in its id is not found in the configuration")
    kinds = {c.res.rsplit("::", 1)[1] for f in crate if f.id in inside for c in f.calls() if c.res.startswith("config::config::Config::get")}
    where = "%s:%s" % (roots[0].file, roots[0].line) if roots else ""
    for k, w in (("get_bool", "flags"), ("get_string", "values"), ("get_table", "tables"), ("get_array", "arrays")):
        ctx.ob("key", "%s are asked for" % w, k in kinds or "get" in kinds, where, "configured %s are left out" % w)
    given(ctx, crate, inside, where)
    joined(ctx, roots)
    l = Load(ctx)
    lr = [f for f in crate if any(c.res.endswith("ConfigBuilder::build") for c in f.calls())]
    lr = [f for f in crate if f.sname == OPTS + "::load"] or lr
    Engine(P, l).run(lr, frozenset([("noproj",)]))
    for f in P.fns.values():
        if f.crate == "oro_config" and not f.derived and "{closure" not in f.sname:
            setters(ctx, f)
    c = Cfg(ctx)
    fs = [f for f in P.fns.values() if f.crate == "orogene"]
    Engine(P, c).run([f for f in fs if f.sname == "orogene::Orogene::load"] or [f for f in fs if not f.cor and "{closure" not in f.sname and not callers(P).get(f.id)])
    values(ctx, crate)
    negation(ctx, crate)
    final(ctx, fs)
    for k, n in (("layer", 12), ("key", 6), ("given", 3), ("sources", 8), ("files", 4), ("values", 8), ("negation", 4), ("final", 3)):
        ctx.floor(k, n)


def given(ctx, crate, inside, where):
    P = ctx.P
    strips, eqs, dd, cl = 0, 0, False, False
    for f in crate:
        if f.id not in inside:
            continue
        for c in f.calls():
            a = [sym.sym_op(f, o) for o in c.args]
            m = c.res.rsplit("::", 1)[-1]
            if m in ("strip_prefix", "trim_start_matches") and ("const", "no-") in a[1:]:
                strips += 1
            if m in ("strip_prefix", "trim_start_matches", "starts_with") and ("const", "--") in a[1:]:
                dd = True
            if m in ("split_once", "split", "find", "splitn", "rsplit_once") and any(x in (("const", "="), ("const", 61)) for x in a[1:]):
                eqs += 1
                cl = cl or m != "rsplit_once"
    ctx.ob("given", "options on the command line", dd, where, "what is given is not told by its dashes")
    ctx.ob("given", "negations on both sides", strips >= 2, where, "an option is not told from its negation, so that a configured one overrides what is given")
    ctx.ob("given", "joined values", cl, where, "`--name=value` is not seen to be the option")


def joined(ctx, roots):
    """what follows `--` is put back on every way out"""
    P = ctx.P
    for f in roots:
        gs = [P.fns[k] for k in reach(P, [f]) if k in P.fns]
        offs = [c for g in gs for c in g.calls() if c.res.endswith("Vec::split_off") and c.args and is_args(g, c.args[0])]
        for c in offs:
            g = c.fn
            back = {d.bb for d in g.calls() if d.args and is_args(g, d.args[0]) and d.res.endswith(("::extend", "::append"))}
            # from the split, every way to the end passes the rejoining
            seen, todo, ok = set(), [c.target], True
            while todo:
                b = todo.pop()
                if b in seen or b in back:
                    continue
                seen.add(b)
                if fails(g, b):
                    continue
                t = g.bbs[b]["t"]
                if t[0] == "ret":
                    ok = False
                todo += g.succ(b)
            ctx.ob("layer", "what follows -- is kept", ok, c.where, "the arguments after `--` are lost")


def fails(g, b):
    """the block makes the function's result an error"""
    for s in g.bbs[b]["s"]:
        if s[0] == [0] and s[1][0] == "agg" and isinstance(s[1][1], dict) and s[1][1].get("v") == "Err":
            return True
    c = g.call_at(b)
    return bool(c) and c.dest == [0] and "from_residual" in c.res


def setters(ctx, f):
    P = ctx.P
    if f.sname.startswith(OPTS + "::") and f.argc == 2 and f.sname.rsplit("::", 1)[1] in ("global", "env", "pkg_root", "global_config_file"):
        n = f.sname.rsplit("::", 1)[1]
        ok = False
        for b in f.rpo():
            for s in f.bbs[b]["s"]:
                if len(s[0]) > 1 and s[0][-1].startswith("." + n + "#"):
                    t = sym.sym_rv(f, s[1])
                    ok = t[0] == "arg" and t[2] == 2
                if s[1][0] == "agg" and isinstance(s[1][1], dict) and s[1][1].get("adt") == OPTS:
                    t = sym.sym_op(f, dict(zip(s[1][1]["f"], s[1][2]))[n])
                    ok = t[0] == "arg" and t[2] == 2
        ctx.ob("sources", "setting of %s" % n, ok, "%s:%s" % (f.file, f.line), "an option of the loader is not what it is set to")
    if f.sname == OPTS + "::set_default":
        cs = [c for c in f.calls() if c.res.endswith("ConfigBuilder::set_default")]
        ok = bool(cs) and all([sym.sym_op(f, a)[:3] for a in c.args[1:]] == [("arg", sym.sym_op(f, c.args[1])[1], 2), ("arg", sym.sym_op(f, c.args[1])[1], 3)] for c in cs)
        ctx.ob("sources", "setting of defaults", ok, "%s:%s" % (f.file, f.line), "a default is not what it is set to")


KINDS = {"String": "as_string", "I64": "as_i64", "Float": "as_f64", "Boolean": "as_bool"}
ADAPT = ("filter", "map", "clone", "iter", "into_iter", "nodes", "entries", "cloned", "collect", "from_iter", "children", "next", "deref", "into_iter", "by_ref", "peekable")


def through(P, t):
    """the accessors of the values a closure is given by Option's methods"""
    out = set()
    for x in sym.walk(t):
        if x[0] == "arg" and x[1] in P.fns and "{closure" in x[1]:
            for g in P.fns.values():
                if g.crate != "oro_config":
                    continue
                for c in g.calls():
                    if len(c.args) > 1 and any(sym.sym_op(g, a)[:2] == ("clo", x[1]) for a in c.args[1:]):
                        out |= {y[1].rsplit("::", 1)[1] for y in sym.walk(sym.sym_op(g, c.args[0])) if y[0] == "call" and y[1].startswith("kdl::value::KdlValue::as_")}
    return out


def values(ctx, crate):
    P = ctx.P
    got = {}
    for f in crate:
        for b in f.rpo():
            for i, s in enumerate(f.bbs[b]["s"]):
                rv = s[1]
                if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt", "").endswith("config::value::ValueKind"):
                    v = rv[1].get("v")
                    w = "%s:%s" % (f.file, f.line_of(b, i))
                    if v in KINDS and rv[2]:
                        t = sym.sym_op(f, rv[2][0])
                        for x in sym.multi(P, t):
                            if v == "Boolean" and x == ("const", True):
                                continue
                            if x[0] == "const" and v != "Boolean":
                                ctx.ob("values", "kind %s" % v, False, w, "a configured value is replaced by a constant")
                                continue
                            acc = {y[1].rsplit("::", 1)[1] for y in sym.walk(x) if y[0] == "call" and y[1].startswith("kdl::value::KdlValue::as_")}
                            if not acc and x[0] == "arg":
                                acc = {y[1].rsplit("::", 1)[1] for z in inst(P, f, x) for y in sym.walk(z) if y[0] == "call" and y[1].startswith("kdl::value::KdlValue::as_")}
                            if not acc:
                                acc = through(P, x)
                            inside = [y for y in sym.walk(x) if y[0] == "fld" and "KdlValue" in y[1]]
                            ok = acc == {KINDS[v]} or bool(inside) and not acc
                            plain = x[0] != "un" and x[0] != "bin"
                            got.setdefault(v, []).append(ok and plain)
                            ctx.ob("values", "kind %s" % v, ok and plain, w, "a value of one kind is taken for another")
    w0 = next(("%s:%s" % (f.file, f.line) for f in crate if "kdl_source" in f.file), "")
    # where variants are made by functions (map(ValueKind::String)), they are seen as function items
    for f in crate:
        for c in f.calls():
            for a in c.args:
                for x in sym.walk(sym.sym_op(f, a)):
                    if x[0] == "fn" and "ValueKind::" in x[1]:
                        v = x[1].rsplit("::", 1)[1]
                        acc = {y[1].rsplit("::", 1)[1] for z in c.args for y in sym.walk(sym.sym_op(f, z)) if y[0] == "call" and y[1].startswith("kdl::value::KdlValue::as_")}
                        if v in KINDS:
                            got.setdefault(v, []).append(KINDS[v] in acc)
    for v in KINDS:
        ctx.ob("values", "%s values" % v, bool(got.get(v)), w0, "configured values of this kind are left out")
    Node(ctx, crate).run()


class NodeRule(MustRule):
    """`true` stands only for a node that has nothing"""
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.n = 0

    def relevant(self, x):
        return True

    def enter(self, f):
        return f.crate == "oro_config" and not f.derived

    def sym_fact(self, f, s, val):
        if s[0] == "un" and s[1] == "Not" and val in (True, False):
            return self.sym_fact(f, s[2], not val)
        if s[0] == "call" and s[1].endswith("is_empty") and val is True and any(x[0] == "call" and x[1].endswith("KdlNode::entries") for x in sym.walk(s)):
            return frozenset([("noentries",)])
        if s[0] == "call" and s[1].endswith("KdlNode::children") and val == "None":
            return frozenset([("nochildren",)])
        for v, a in KINDS.items():
            if s[0] == "call" and s[1].endswith("KdlValue::" + a) and val == "None":
                return frozenset([("not", v)])
        if s[0] == "call" and s[1].endswith(("KdlValue::is_null",)) and val is True:
            return frozenset(("not", v) for v in KINDS)
        if "KdlValue" in str(s[1])[:60] and val == "Null":
            return frozenset(("not", v) for v in KINDS)
        if val in (True, False) and s[0] == "bin" and s[1] in ("Eq", "Ne", "Gt", "Lt", "Ge", "Le"):
            n = [x for x in (s[2], s[3]) if x[0] == "const"]
            o = [x for x in (s[2], s[3]) if x[0] == "call"]
            if n and o and self.positional(o[0]):
                k = n[0][1]
                if s[1] == "Eq" and val is True and k == 1 or s[1] == "Ne" and val is False and k == 1:
                    return frozenset([("one",)])
        if val == 1 and self.positional(s):
            return frozenset([("one",)])
        return frozenset()

    def positional(self, s):
        return s[0] == "call" and s[1].endswith(("Iterator>::count", "Iterator::count", "::len")) and any(x[0] == "call" and x[1].endswith("KdlNode::entries") for x in sym.walk(s))

    def kind(self, rv, f):
        if rv[0] == "agg" and isinstance(rv[1], dict) and rv[1].get("adt", "").endswith("config::value::ValueKind"):
            return rv[1].get("v"), [sym.sym_op(f, o) for o in rv[2]]
        return None, None

    def check(self, c, st, ch, eng):
        m = c.res.rsplit("::", 1)[-1]
        if m in ("next", "first", "last", "get", "index", "nth") and c.args:
            of = lambda d: any(x[0] == "call" and x[1].endswith("KdlNode::entries") for x in sym.walk(sym.sym_op(d.fn, d.args[0])))
            if not of(c) or c.fn.crate != "oro_config":
                return
            # in a loop, it's all of them
            seen, todo = set(), list(c.fn.succ(c.bb))
            while todo:
                b = todo.pop()
                if b not in seen:
                    seen.add(b)
                    todo += c.fn.succ(b)
            if c.bb in seen or sum(d.res == c.res and of(d) for d in c.fn.calls()) > 1:
                return
            self.ctx.ob("values", "one value only of one", ("one",) in st.facts, c.where, "of several configured values, only one is used")

    def otherwise(self, f, place):
        """the default of a chain that tries every kind"""
        for c in f.calls():
            if c.res.rsplit("::", 1)[-1] in ("unwrap_or", "map_or") and any(a[0] in "cm" and a[1] == place for a in c.args[1:]):
                fs = [self.P.fns[k] for k in reach(self.P, [f]) if k in self.P.fns]
                if all(any(d.res.endswith("KdlValue::" + a) for g in fs for d in g.calls()) for a in KINDS.values()):
                    return True
        return False

    def check_stmt(self, f, b, i, s, st, ch, eng):
        v, ops = self.kind(s[1], f)
        w = "%s:%s" % (f.file, f.line_of(b, i))
        if v == "Boolean" and ops == [("const", True)]:
            self.n += 1
            self.ctx.ob("values", "true for a node that has nothing", ("noentries",) in st.facts and ("nochildren",) in st.facts, w, "what a node has is dropped, and it is taken for `true`")
        if v == "Nil":
            self.n += 1
            self.ctx.ob("values", "nothing only for null", all(("not", x) in st.facts for x in KINDS) or self.otherwise(f, s[0]), w, "a configured value is dropped")


class Node:
    def __init__(self, ctx, crate):
        self.ctx, self.P, self.crate = ctx, ctx.P, crate

    def run(self):
        ctx, P = self.ctx, self.P
        roots = [f for f in self.crate if (f.trait or "").endswith(("Source", "Format")) and "{closure" not in f.sname]
        rs = [f for f in self.crate if "kdl_source" in f.file and "{closure" not in f.sname and any(c.res.endswith("KdlNode::entries") for c in f.calls())]
        r = NodeRule(ctx)
        Engine(P, r).run(roots + [f for f in rs if f not in roots])
        # what is iterated over is everything there is
        for f in self.crate:
            if "kdl_source" not in f.file:
                continue
            for c in f.calls():
                m = c.res.rsplit("::", 1)[-1]
                if m in ("skip", "take", "step_by", "skip_while", "take_while", "rev", "last", "nth", "filter_map", "find", "dedup", "truncate", "retain") and c.args:
                    t = sym.sym_op(f, c.args[0])
                    if any(x[0] == "call" and x[1].endswith(("KdlNode::entries", "KdlDocument::nodes", "KdlDocument::nodes_mut")) for x in sym.walk(t)):
                        ok = m in ("find",) and False
                        ctx.ob("values", "all of them", ok, c.where, "some of what is configured is left out, or is in another order")
                if c.res.endswith(("HashMap::insert", "BTreeMap::insert", "Map::insert")) and len(c.args) == 3:
                    self.pair(f, sym.sym_op(f, c.args[1]), sym.sym_op(f, c.args[2]), c.where)
                if c.res.endswith(("::or_insert", "::or_insert_with", "HashMap::try_insert")):
                    ctx.ob("values", "the last of a name", False, c.where, "a later option of the same name does not override")
                if c.res.endswith("KdlDocument::get"):
                    ctx.ob("values", "the options node", sym.sym_op(f, c.args[1]) == ("const", "options"), c.where, "options are not read from the `options` node")
                if m == "filter" and c.args and len(c.args) > 1:
                    t = sym.sym_op(f, c.args[1])
                    if t[0] == "clo" and t[1] in P.fns and any(x[0] == "call" and x[1].endswith("KdlNode::entries") for x in sym.walk(sym.sym_op(f, c.args[0]))):
                        g = P.fns[t[1]]
                        rs = sym.returns(P, g)
                        ok = all(x[0] == "call" and x[1].endswith("Option::is_none") and any(y[0] == "call" and y[1].endswith("KdlEntry::name") for y in sym.walk(x)) for x in rs)
                        ctx.ob("values", "positional values", ok, c.where, "positional values are told from named ones otherwise than by their name")
            # pairs made for a table
            for b in f.rpo():
                for i, s in enumerate(f.bbs[b]["s"]):
                    if s[1][0] == "agg" and s[1][1] == "tuple" and len(s[1][2]) == 2 and s[0] == [0]:
                        self.pair(f, sym.sym_op(f, s[1][2][0]), sym.sym_op(f, s[1][2][1]), "%s:%s" % (f.file, f.line_of(b, i)))

    def pair(self, f, k, v, w):
        P = self.P

        def base(t, *last):
            out = set()
            for x in sym.walk(t):
                if x[0] == "call" and x[1].endswith(last) and x[2]:
                    out.add(repr(x[2][0]))
            return out
        kn = base(k, "KdlNode::name", "KdlEntry::name")
        if not kn:
            return
        vn = base(v, "::node_value", "KdlEntry::value") | {repr(a) for x in sym.walk(v) if x[0] == "call" and x[1].startswith("oro_config") for a in x[2]}
        self.ctx.ob("values", "a name and its value", bool(kn & vn), w, "an option's value is another's")


def negation(ctx, crate):
    P = ctx.P
    roots = [f for f in crate if f.sname.endswith("::with_negations") and "{closure" not in f.sname]
    where = "%s:%s" % (roots[0].file, roots[0].line) if roots else ""
    fs = [P.fns[k] for k in reach(P, roots) if k in P.fns and P.fns[k].crate == "oro_config"]
    consts = set()
    calls = [c for f in fs for c in f.calls()]
    for c in calls:
        for a in c.args:
            for x in sym.walk(sym.sym_op(c.fn, a)):
                if x[0] == "const" and isinstance(x[1], str):
                    consts.add(x[1])
    tm = [template(x) for x in consts if "\x00" in x]
    ctx.ob("negation", "name", any(t[:2] == ["no-", None] and len(t) == 2 for t in tm), where, "a negation is not no- and the option's name")
    ctx.ob("negation", "of negations", bool(consts & {"no-no-", "no-"}), where, "the negation of a no- option is not the option")
    ov = [c for c in calls if c.res.endswith("Arg::overrides_with")]
    ctx.ob("negation", "overrides its option", bool(ov) and all(any(x[0] == "call" and x[1].endswith("Arg::get_id") for y in inst(P, c.fn, sym.sym_op(c.fn, c.args[1])) for x in sym.walk(y)) for c in ov), ov[0].where if ov else where, "a later negation does not override the option")
    ac = [c for c in calls if c.res.endswith("Arg::action")]
    ctx.ob("negation", "takes no value", bool(ac) and all(sym.sym_op(c.fn, c.args[1])[:3] == ("agg", "clap_builder::builder::action::ArgAction", "SetTrue") for c in ac), ac[0].where if ac else where, "a negation takes a value")
    gl = [c for c in calls if c.res.endswith("Arg::global")]
    ctx.ob("negation", "where its option is", bool(gl) and all(any(x[0] == "call" and x[1].endswith("is_global_set") for x in sym.walk(sym.sym_op(c.fn, c.args[1]))) for c in gl), gl[0].where if gl else where, "a global option's negation is not global")
    # every option with a long name
    for c in calls:
        m = c.res.rsplit("::", 1)[-1]
        if m in ("filter", "filter_map", "skip", "take", "skip_while", "take_while", "step_by") and c.args and any(x[0] == "call" and x[1].endswith("Command::get_arguments") for x in sym.walk(sym.sym_op(c.fn, c.args[0]))):
            ok = False
            t = sym.sym_op(c.fn, c.args[1])
            if m in ("filter", "filter_map") and t[0] == "clo" and t[1] in P.fns:
                for x in [y for y in sym.returns(P, P.fns[t[1]])]:
                    ok = any(y[0] == "call" and y[1].endswith("Arg::get_long") for y in sym.walk(x)) and not any(y[0] in ("un", "bin") for y in sym.walk(x)) and not (x[0] == "call" and x[1].endswith("is_none"))
            ctx.ob("negation", "every long option", ok, c.where, "some options have no negation")
    ad = [c for c in calls if c.res.endswith(("Command::args", "Command::arg"))]
    ctx.ob("negation", "added", bool(ad), where, "the negations are not added")


def final(ctx, fs):
    P = ctx.P
    lay = [c for f in fs for c in f.calls() if c.decl.endswith("OroConfigLayerExt::layered_args") or c.res.endswith("OroConfigLayerExt>::layered_args")]
    subs = [c for c in lay if any(x[0] == "call" and "find_subcommand" in x[1] for t in spread(P, sym.sym_op(c.fn, c.args[0])) + [sym.sym_op(c.fn, c.args[0])] for x in sym.walk(t))]
    w = lay[0].where if lay else ""
    ctx.ob("final", "subcommands", bool(subs), w, "a subcommand's own options are not configured")
    tops = [c for c in lay if any(not any(x[0] == "call" and "find_subcommand" in x[1] for x in sym.walk(t)) for t in sym.multi(P, sym.sym_op(c.fn, c.args[0])))]
    ctx.ob("final", "global options", bool(tops), w, "the program's own options are not configured")
    for c in lay:
        cfg = [y for t in sym.multi(P, sym.sym_op(c.fn, c.args[2])) for y in inst(P, c.fn, t)]
        ok = all(any(x[0] == "call" and (x[1].endswith("build_config") or x[1] == OPTS + "::load") for y in [t] + sym.expand(P, t) for x in sym.walk(y)) for t in cfg)
        ctx.ob("final", "configuration", ok, c.where, "the options do not come from the loaded configuration")
    ex = [c for f in fs for c in f.calls() if c.decl.endswith(("OroCommand::execute", "Orogene::execute")) or c.res.startswith(ORO + "::execute")]
    r = Final(ctx)
    rt = [f for f in fs if f.sname == ORO + "::load"] or fs
    Engine(P, r).run(rt)
    ctx.ob("final", "what runs was looked at", r.n > 0, w, "no way from the start of the program to the command was followed")
    # what runs is parsed from the layered arguments
    for f in fs:
        ps = [c for c in f.calls() if c.res.endswith("FromArgMatches>::from_arg_matches") and "Orogene" in c.res]
        runs = [c for c in f.calls() if c in ex or c.res == ORO + "::execute"]
        if not runs or not ps:
            continue
        last = [t for c in runs[:1] for t in spread(P, sym.sym_op(f, c.args[0])) + [sym.sym_op(f, c.args[0])]]
        xs = [x for t in last for x in sym.walk(t)]
        xs += [y for x in xs if x[0] == "multi" for m in spread(P, x) for y in sym.walk(m)]
        ok = any(x[0] == "call" and x[1].endswith(("get_matches_from", "try_get_matches_from", "get_matches_from_mut")) for x in xs)
        ctx.ob("final", "what runs is parsed from these arguments", ok, runs[0].where, "the command runs with the options as they were before the configuration was added")
