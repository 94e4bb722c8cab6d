PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique=None, note=None, observe=None, state=None, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}
    if na:
        d["na"] = na
    else:
        d["technique"] = technique
        d["level_note"] = note
    PROPS.append(d)


TB = " Trusts rustc's front end, the fact extractor (driver/main.rs) and the engines in orov/; code behind foreign calls is covered by the effect tables only."

P("P10", "The apply pipeline runs its phases in order and completely",
  "An apply runs resolve, prune, extract, rebuild and lockfile writing in that order, each phase only after the previous one succeeded. "
  "Disabled parts never run (no changes at all with --no-apply, no node_modules work with --lockfile-only, no scripts with --no-scripts, no lockfile with --no-lockfile), and no phase before the lockfile writes project files other than its own. "
  "A successful exit means every enabled phase ran to completion.",
  ["configurations", "fault_sequences"],
  "every combination of the apply options and every phase that can fail",
  "Tests exercise the resolver with default options; no test runs the apply command, and none fails a phase midway or varies the gating options.",
  ["src/apply_args.rs", "crates/node-maintainer/src/maintainer.rs", "crates/node-maintainer/src/linkers/mod.rs"],
  [("phase sequence with ? on each phase", "src/apply_args.rs ApplyArgs::execute"), ("ignore_scripts gate", "crates/node-maintainer/src/linkers/mod.rs rebuild")],
  "interprocedural must-facts over MIR (typestate) plus call-graph effects",
  "Decides every path of the resolved program through the apply entry point, including all option combinations and early error returns." + TB,
  observe=["node_modules", "package-lock.kdl", "exit status"])

P("P01", "Package contents cannot write outside the directory they are installed to",
  "Names chosen by a package (archive entry paths, recorded file lists of cached packages, declared command names and their targets, dependency names) never make an install create, change or remove anything outside of the package's own directory and the command links made for it. "
  "Only regular files of an archive are materialised: links, devices and other special entries never reach the file system. "
  "This holds for every extraction mode and for packages restored from the cache as well as fresh downloads.",
  ["inputs"],
  "every archive, cached index, bin declaration and dependency name",
  "Tests install well-formed packages only; no test has an archive entry, a bin or a dependency name that climbs out of its directory.",
  ["crates/nassun/src/tarball.rs", "crates/nassun/src/package.rs", "crates/oro-common/src/build_manifest.rs", "crates/oro-package-spec/src/parsers/util.rs"],
  [("entry paths are rebuilt from normal components", "crates/nassun/src/tarball.rs"), ("bin names and targets are normalised", "crates/oro-common/src/build_manifest.rs"),
   ("name parts are validated when parsed", "crates/oro-package-spec/src/parsers")],
  "context-sensitive taint analysis over the whole-program value-flow graph, plus must-facts for the entry type",
  "Taint from every package-controlled name to every path argument of a file-system effect; a value is clean only as a normal path component or a file name." + TB,
  observe=["files outside of node_modules"])

P("P02", "Installed content is what the expected integrity names",
  "When a checksum is known for a package (from the registry, the lockfile or the caller), every byte that reaches the project was compared with it, and a mismatch makes the extraction fail before anything is placed or recorded. "
  "The expected checksum is the one that belongs to that package and version; it is dropped only by the operations named unchecked. "
  "Cached content is found only under the checksum it was verified against.",
  ["inputs", "fault_sequences"],
  "every package, registry answer and stream of chunks, corrupted anywhere",
  "Tests download intact tarballs; corruption can sit in any byte, in any chunk boundary, after the end of the archive, or in the metadata that names the checksum.",
  ["crates/nassun/src/tarball.rs", "crates/nassun/src/package.rs", "crates/nassun/src/resolver.rs", "crates/node-maintainer/src/resolver.rs"],
  [("checking reader", "crates/nassun/src/tarball.rs Tarball::poll_read"), ("checked extraction", "crates/nassun/src/package.rs extract_to_dir_checked")],
  "interprocedural must-facts over MIR plus value-flow provenance of the checksum",
  "Decides that the checker sees every chunk and its result gates end of stream, that extraction consumes the stream through the checking reader before placing anything, and where each expected checksum comes from." + TB,
  observe=["node_modules", "exit status"])

P("P03", "Cache records describe complete, verified packages and failures fall back",
  "A package's cache record is written only after its archive was read to the end, every regular file in it was placed in the project and noted in the record, and nothing is placed afterwards. "
  "Restoring from the cache succeeds only when every file of the record was placed. "
  "A failed restore removes the record and continues with a fresh checked download: a damaged cache entry alone never makes an extraction fail.",
  ["crash_points", "fault_sequences"],
  "every archive, every interruption and every failing step of extraction and restore",
  "Tests extract a package once into an empty cache; an interrupted write, a truncated record or a missing blob needs a crash or a damaged cache.",
  ["crates/nassun/src/tarball.rs", "crates/nassun/src/package.rs"],
  [("record written last", "crates/nassun/src/tarball.rs TempTarball::extract_to_dir"), ("fallback to the network", "crates/nassun/src/package.rs extract_to_dir_inner")],
  "interprocedural must-facts over MIR (typestate of entry loop, record and restore)",
  "Decides the order of placing, noting and recording on every path, and what follows a failed restore." + TB,
  observe=["node_modules", "cache directory", "exit status"])

P("P04", "Packages with install scripts never share files with the cache",
  "The files of a package that declares preinstall, install or postinstall are copies (or copy-on-write clones) of the cached content, never hard links to it, whether freshly extracted or restored, and wherever in the archive its manifest sits. "
  "Hard links are made only in the hard-linking extraction modes, and these are chosen only when the user did not ask for copies.",
  ["inputs", "configurations"],
  "every archive order, extraction mode and cached record",
  "Tests extract packages without scripts, or with the manifest at one position; the damage shows only when a script changes a file later.",
  ["crates/nassun/src/tarball.rs", "crates/nassun/src/package.rs", "crates/node-maintainer/src/linkers"],
  [("second extraction of earlier files", "crates/nassun/src/tarball.rs TempTarball::extract_to_dir"), ("should_copy mark", "crates/nassun/src/tarball.rs TarballIndex")],
  "interprocedural must-facts over MIR about the extraction mode",
  "Decides every path of extraction and restore; that the file system's clone operation is copy-on-write is trusted." + TB,
  observe=["link count of files in node_modules", "cache content"])

P("P05", "Registry credentials go to their own registry only",
  "Configured credentials leave the program only as the Authorization header of a request whose host and port are the registry's and whose path starts with the registry's, each registry's under its own host, port and path. "
  "Every request is made with a client that adds them this way, and names the registry its client was made for, so that requests of a scoped registry neither miss its credentials nor get another's.",
  ["inputs", "configurations"],
  "every registry address, credential setting and address named by a registry's answers",
  "Tests use one registry at one address; a leak needs a tarball, login or redirect address chosen by the other side.",
  ["crates/oro-client/src/auth_middleware.rs", "crates/oro-client/src/client.rs", "crates/oro-client/src/api"],
  [("same-registry test before the header is added", "crates/oro-client/src/auth_middleware.rs AuthMiddleware::handle"), ("lookup key", "crates/oro-client/src/auth_middleware.rs nerf_dart"),
   ("X-Oro-Registry on each request", "crates/oro-client/src/api")],
  "interprocedural must-facts over MIR for the test before the header, value-flow taint of credentials, symbolic terms of client and request builders",
  "Decides every path of the middleware, every use of a credential value in the client crate and every request built in the workspace. What the HTTP library does with the header on redirects is trusted." + TB,
  observe=["headers of requests"])

P("P08", "Registry operations succeed only on a successful answer",
  "A request to a registry is reported as successful (and a token, document or archive taken from it) only after the status of its answer was found to be a success. "
  "A package is reported as missing only when the registry answered 404, and a one-time password is asked for only when it answered 401.",
  ["inputs", "fault_sequences"],
  "every operation and every status a registry can answer with",
  "Tests answer each operation with one or two chosen statuses; any other status must fail as well.",
  ["crates/oro-client/src/api"],
  [("error_for_status on each response", "crates/oro-client/src/api"), ("status match of logins", "crates/oro-client/src/api/login.rs")],
  "interprocedural must-facts over MIR about the status of the last response",
  "Decides every path from a sent request to a success result, with the status comparisons on it read symbolically." + TB,
  observe=["results of client operations", "exit status"])

P("P06", "Secrets stay out of logs, output, errors and other files",
  "No password, token or pre-encoded credential that was configured, entered or handed out by a registry is written to the terminal, the debug log, telemetry, the environment or arguments of a child process, or the text of an error; the text of stored credentials leaves them out, and the Authorization header is marked sensitive. "
  "The only file they are written to is the user's configuration. Errors of requests whose URL includes a token leave out the URL, and the logged command line leaves out the values of credential options.",
  ["inputs", "configurations", "fault_sequences"],
  "every credential setting, prompt and answer, on every path including failures",
  "A leak shows on paths tests do not take with secrets in them: invalid headers, unreachable registries, debug logs.",
  ["crates/oro-client/src", "crates/oro-npm-account/src", "src"],
  [("masked Debug", "crates/oro-client/src/credentials.rs"), ("command line log", "src/lib.rs log_command_line"), ("token in a URL", "crates/oro-client/src/api/logout.rs"),
   ("credential options", "src/client_args.rs"), ("login and logout", "src/commands/login.rs, src/commands/logout.rs")],
  "whole-program value-flow taint over MIR from every field, parameter and prompt that holds a secret to every output call",
  "Decides every use of a stored or entered secret in the workspace. Secrets are recognised by the fields that hold them (passwords, tokens, credential variants, the values of auth options); what HTTP and logging libraries print by themselves is trusted. "
  "For the logged command line it decides that the value of each credential option is tested for, not how it is cut out." + TB,
  observe=["standard output and error", "the debug log", "errors"])

P("P07", "Stored credentials are read, sent and removed as what they were stored as",
  "Each kind of credentials (token, legacy auth string, user name, password) is stored by login under its own property, read back from that property as the same kind, and settings of that name reach the client as that kind. "
  "Storing or removing a registry's credentials or a scope's registry replaces its own entry and leaves all others alone. "
  "Login and logout report success only after writing the changed configuration, and logout forgets a token only after the registry revoked it.",
  ["inputs", "fault_sequences"],
  "every kind of credentials, every existing configuration and every failing step of login and logout",
  "No test logs out, stores into an existing configuration or reads back what login wrote; the three places that agree on names are in three crates.",
  ["crates/oro-npm-account/src/config.rs", "src/client_args.rs", "src/commands/login.rs", "src/commands/logout.rs", "crates/oro-client/src/client.rs"],
  [("property names", "crates/oro-npm-account/src/config.rs"), ("setting names", "src/client_args.rs")],
  "symbolic terms of stored, read and accepted names compared across crates, plus interprocedural must-facts over MIR",
  "Decides every place that writes, reads or accepts a credential property, every removal from the configuration and every path of the two commands. The meaning of the KDL library's operations is trusted." + TB,
  observe=["oro.kdl", "requests to the registry", "exit status"])
P("P09", "Packages are asked for from the registry configured for their scope",
  "The metadata of a package is requested below the address of the registry configured for that package's own scope, else the default registry, else npmjs, also when it is reached through an alias. "
  "Metadata kept in memory is used only for the package name it was requested for. "
  "The registry and scoped-registry options of the command line reach that choice completely and unchanged.",
  ["inputs", "configurations"],
  "every package spec, set of configured registries and registry address",
  "No test configures a scoped registry or a registry that is not at the root of its host.",
  ["crates/nassun/src/fetch/npm.rs", "crates/nassun/src/client.rs", "crates/oro-client/src/client.rs", "crates/oro-client/src/api/packument.rs", "src/nassun_args.rs"],
  [("choice", "crates/nassun/src/fetch/npm.rs"), ("addresses", "crates/oro-client/src/client.rs")],
  "symbolic terms over MIR (client, registry and name of one package), must-facts for the order of the choice and for loops that hand on every element",
  "Decides every call that asks a registry for metadata, every use of the table of registries and every place that fills it. That parsing a spec puts the scope in its place is not part of it; Url::join is trusted." + TB,
  observe=["requests to registries"])

P("P11", "A locked install succeeds only if the lockfile stays as it is",
  "With the locked option an apply fails unless the project's existing lockfile describes exactly the dependency tree that was resolved, comparing everything a lockfile records. "
  "An existing lockfile that cannot be read or parsed is then an error and not taken for a missing one. "
  "The lockfile compared with is the one an apply writes, and the option holds whatever other options are given.",
  ["configurations", "inputs"],
  "every resolution outcome, every content of the lockfiles on disk and every combination of options",
  "No test runs with the locked option at all; the interesting inputs are trees that differ from a lockfile in one field, unreadable lockfiles, and option combinations.",
  ["crates/node-maintainer/src/resolver.rs", "crates/node-maintainer/src/maintainer.rs", "src/apply_args.rs"],
  [("comparison after resolution", "crates/node-maintainer/src/resolver.rs Resolver::run_resolver"), ("reading the lockfiles", "crates/node-maintainer/src/maintainer.rs get_lockfile")],
  "interprocedural must-facts over MIR (typestate), path search for swallowed errors, option-forwarding check",
  "Decides, for every path on which a resolved tree is handed out, that the option was off, that no lockfile exists, or that the lockfile was found equal; equality itself is the derived field-wise comparison." + TB,
  observe=["exit status"])

P("P13", "A lockfile keeps everything it needs and reads back as it was written",
  "A written lockfile records every package of the resolved tree with its place, version, source, checksum and what it depends on per kind of dependency, each under the name it is read back from, whenever there is one. "
  "A package taken from a lockfile entry has that entry's version, source, checksum and dependencies, whether the lockfile is orogene's or npm's. "
  "No kind of dependency is taken for another on the way from a manifest into the tree, into the lockfile and back.",
  ["inputs"],
  "every dependency tree and every lockfile",
  "Tests compare a few small trees with snapshots; most of them have prod dependencies only and none reads a written file back.",
  ["crates/node-maintainer/src/lockfile.rs", "crates/node-maintainer/src/graph.rs"],
  [("writer", "crates/node-maintainer/src/lockfile.rs to_kdl"), ("readers", "crates/node-maintainer/src/lockfile.rs from_kdl, from_npm"), ("tree", "crates/node-maintainer/src/graph.rs node_lockfile_node")],
  "tables (field, node name, kind) extracted from the MIR of writer and readers and compared; branch conditions of each written field; loops that reach every element",
  "Decides every construction of a lockfile entry, lockfile node, manifest and package resolution in node-maintainer. The KDL library's printing and parsing, and the text form of versions, checksums and sources, are trusted." + TB,
  observe=["package-lock.kdl"])

P("P14", "The tree of packages meets every requirement",
  "Every dependency and optional dependency of every package in the resolved tree, and every development dependency of the root, is connected to a package whose version (or directory) meets the requirement, before resolution counts as finished. "
  "What a package finds under a name is the nearest package of that name up the tree. "
  "A package is put no higher than where nobody below relies on another package of that name, and where every package on the way can take it too.",
  ["inputs", "schedules"],
  "every set of manifests, lockfile and order in which the registry answers",
  "Tests resolve a few small trees from one mock registry which answers at once; conflicts between packages that are looked up at the same time, and which of them comes first, are not covered.",
  ["crates/node-maintainer/src/resolver.rs", "crates/node-maintainer/src/graph.rs", "crates/nassun/src/resolver.rs"],
  [("resolution loop, placing", "crates/node-maintainer/src/resolver.rs Resolver::run_resolver, place_child"), ("looking up the tree", "crates/node-maintainer/src/graph.rs Graph::resolve_dep, find_by_name"), ("meeting a requirement", "crates/nassun/src/resolver.rs PackageResolution::satisfies")],
  "interprocedural must-facts over MIR with symbolic terms: facts at every call that adds an edge, queues or places a package; loops that reach every element",
  "Decides every call that adds an edge to the tree, every loop of the resolver and every place a package is put into. Whether a version is in a range is for the node-semver crate. Known finding: a package that is in the tree under an alias also serves those who require the package the alias is named like (see known_findings.txt)." + TB,
  observe=["package-lock.kdl", "node_modules"])

P("P19", "A requirement resolves to the version it calls for",
  "A requirement that names a version or a tag resolves to exactly that; any other resolves to the version of the default tag if that is published and meets it, and else to the greatest published version that does. "
  "It has no version only if none meets it, or the tag does not exist; a version that does not meet it is never taken instead. "
  "Version, source and checksum of the result are those of that one version.",
  ["inputs"],
  "every packument and every version requirement",
  "Tests try single versions against single ranges; which of several versions is taken, in the presence of tags, pre-releases and versions that are gone, is not covered.",
  ["crates/nassun/src/resolver.rs"],
  [("choice of the version", "crates/nassun/src/resolver.rs PackageResolver::get_resolution, max_satisfying")],
  "interprocedural must-facts over MIR with symbolic terms: every value the chosen version can have, and what was found out before it is taken",
  "Decides every definition that can reach the version used for the lookup, through options, closures and helpers. Whether a version is in a range, and which of two versions is greater, is for the node-semver crate. A tag or range for all versions (*) may fall back to the default tag." + TB,
  observe=["package-lock.kdl"])

P("P17", "Adding and removing dependencies edits package.json safely and exactly",
  "The add and remove commands write package.json only after the edited dependencies were applied successfully, and report success only after writing it. "
  "Every name given is handled: it is removed from every kind of dependencies, and add then lists it, with the prefix and resolved version, under the kind that was asked for. "
  "All other content of the file, its order, indentation and line ends stay as they were, and what is applied is what is written.",
  ["inputs", "fault_sequences", "configurations"],
  "every package.json, list of names, set of options and failing step",
  "No test runs the add or remove command; what matters is files that list a package twice, several names, and an apply that fails midway.",
  ["src/commands/add.rs", "src/commands/remove.rs", "crates/oro-pretty-json/src/lib.rs"],
  [("edit, apply, write", "src/commands/add.rs AddCmd::execute"), ("edit, apply, write", "src/commands/remove.rs RemoveCmd::execute"), ("format-preserving printer", "crates/oro-pretty-json/src/lib.rs")],
  "interprocedural must-facts over MIR (typestate), loops that reach every element, option-to-section table",
  "Decides every path of the two commands and every edit of the parsed document. serde_json's parsing and printing of values are trusted; that the printer keeps the format is decided as far as which parts of the document it uses." + TB,
  observe=["package.json", "exit status"])

P("P12", "Install scripts run when and where they should, and their failures count",
  "A rebuild runs the preinstall scripts of all packages just installed, then links their commands, then runs the install and then the postinstall scripts, each step only after the one before succeeded, and none of the scripts with --no-scripts. "
  "Within a step a package's script runs, in the directory the package was put in, only after the scripts of the packages it depends on have finished (packages that depend on each other excepted), and the step always comes to an end. "
  "A script that cannot be started, is killed or exits with failure makes the install fail, unless nothing but optional dependencies needs the package.",
  ["schedules", "inputs", "fault_sequences"],
  "every dependency graph, every completion order of the scripts and every outcome of each",
  "Tests have no package with install scripts; order and termination depend on the graph (chains, diamonds, cycles) and on which script finishes first, failures on how a process ends.",
  ["crates/node-maintainer/src/linkers/mod.rs", "crates/oro-script/src/lib.rs", "crates/node-maintainer/src/graph.rs"],
  [("steps of a rebuild", "crates/node-maintainer/src/linkers/mod.rs Linker::rebuild"), ("order between packages", "crates/node-maintainer/src/linkers/mod.rs run_scripts"), ("one package's script", "crates/node-maintainer/src/linkers/mod.rs run_dep_script"), ("exit status", "crates/oro-script/src/lib.rs wait, output")],
  "interprocedural must-facts over MIR (typestate of the scheduler), path search for swallowed errors, comparison of path constructions",
  "Decides every path through the steps, the scheduler and the runner: what is known when a package is released, that the queue is closed when nothing waits, that no error is dropped. That the channel and stream combinators deliver what was sent, and the shell, are trusted; scripts that themselves never end are out of scope." + TB,
  observe=["order of scripts", "exit status"])

P("P16", "What an interrupted apply left in node_modules is never trusted",
  "An apply removes the record of what is installed before it changes anything in node_modules, and writes it anew only after every package was extracted successfully. "
  "The record written is that of the tree that was installed, and no package is extracted and no link or directory replaced in the same phase after that. "
  "The next apply trusts a complete, readable record or none at all.",
  ["crash_points", "fault_sequences"],
  "every point at which an apply can be interrupted or fail",
  "No test applies a project, let alone interrupts one; what matters is the state of the disk between two steps of pruning and extraction.",
  ["crates/node-maintainer/src/linkers/hoisted.rs", "crates/node-maintainer/src/linkers/isolated.rs", "crates/node-maintainer/src/resolver.rs"],
  [("record removed and written", "crates/node-maintainer/src/linkers/hoisted.rs prune, extract"), ("record removed and written", "crates/node-maintainer/src/linkers/isolated.rs prune, extract"), ("record read", "crates/node-maintainer/src/resolver.rs load_actual")],
  "interprocedural must-facts over MIR (typestate): record gone before every effect, every extraction succeeded before the record is written",
  "Decides every path through the prune and extract phases of both linkers up to every file system effect, and every function between an extraction and the record. The order in which the operating system makes changes durable is not modelled." + TB,
  observe=["node_modules", "node_modules/.orogene-meta.kdl"])

P("P15", "An apply replaces what does not match the resolved tree",
  "An apply over an existing node_modules deletes every package that is not exactly what the resolved tree has at that place (compared with the record of the last apply, or by the name of its directory in the store), and all of it if there is no record or the layout was another one. "
  "Only after that it extracts every package of the tree that is not in place. "
  "In the isolated layout packages that differ in place, source or checksum have different directories, every dependency is linked to the one the tree has there, and links to former dependencies go.",
  ["histories", "inputs"],
  "every content of node_modules and every resolved tree",
  "Tests apply to empty directories; what matters is what an earlier apply, another layout, another package manager or an interrupted run left there.",
  ["crates/node-maintainer/src/linkers/hoisted.rs", "crates/node-maintainer/src/linkers/isolated.rs", "src/apply_args.rs"],
  [("prune and extract", "crates/node-maintainer/src/linkers/hoisted.rs prune, extract"), ("prune, extract and link", "crates/node-maintainer/src/linkers/isolated.rs prune, extract, link_deps, package_dir_name"), ("order of phases", "src/apply_args.rs ApplyArgs::execute")],
  "must-facts per element over MIR: every directory entry, package and dependency edge is dealt with or established to be one that may stay; value flow into store directory names",
  "Decides every path through the loops, streams and filters of prune and extract. Files changed inside a package directory that stays, and what bundled packages bring along, are not compared; the record is trusted (see P16)." + TB,
  observe=["node_modules"])

P("P20", "Telemetry is opt-in",
  "Errors are reported only when telemetry is turned on, and telemetry is on only if a --telemetry flag, the configuration or the answer to the prompt of the first run says so: without any of them, and with --no-telemetry, nothing is sent. "
  "The prompt's default is not yes, a prompt that could not be answered is not a yes, and what is saved is the answer given. "
  "Reports leave out the machine's name and personal data.",
  ["configurations", "histories"],
  "every combination of flags, configuration files, environment and first-run answers, and every way from the program's start to the reporting",
  "No test runs with a reporting address; whether telemetry was asked for is spread over the flag's declaration, the configuration, the prompt and the set-up.",
  ["src/lib.rs"],
  [("what was asked for", "src/lib.rs Orogene::load, first_time_setup, prompt_telemetry_opt_in"), ("reporting", "src/lib.rs setup_telemetry")],
  "must-facts over MIR: on every path to the reporting library's start, the telemetry setting is true and derives from an opt-in; value provenance of what is saved and of the client's options",
  "Decides the way from the parsed flags to the start of the reporting. How clap parses the flags and what the reporting library sends besides (stack traces, the release, the log of a panic) is not decided.",
  observe=["requests made", "configuration file"])

P("P23", "No answer, package, lockfile or request makes oro panic",
  "Whatever a registry answers, a package contains, a lockfile or package.json says or a specifier asks for, oro succeeds or fails with an error; it never panics. "
  "Something only such data decides (an optional field, a header, an entry, a part of text, whether text parses) is never taken to be there unless every way to that place has made sure of it, and text is only cut at offsets that are boundaries of it. "
  "A panic meant for the program's own mistakes is never reached by a kind of request, aliases included, or of value that exists, and what is not implemented fails with an error.",
  ["inputs", "fault_sequences"],
  "every registry answer, package, lockfile, package.json and specifier",
  "A test feeds the well-formed data its author thought of; a panic hides in the one missing field, odd header, misplaced byte or kind of specifier nobody tried.",
  ["crates/nassun/src/fetch/dir.rs", "crates/nassun/src/fetch/git.rs", "crates/nassun/src/fetch/npm.rs", "crates/nassun/src/resolver.rs", "crates/oro-package-spec/src/parsers/git.rs", "crates/oro-client/src/error.rs", "crates/oro-client/src/api/login.rs", "crates/node-maintainer/src/lockfile.rs", "crates/node-maintainer/src/resolver.rs", "crates/oro-common/src/build_manifest.rs", "src/commands/add.rs", "src/lib.rs"],
  [("kinds of request", "crates/nassun/src/fetch/*.rs PackageFetcher impls"), ("reading", "crates/node-maintainer/src/lockfile.rs from_kdl; crates/oro-client/src/error.rs from_json_err; crates/oro-client/src/api/login.rs; crates/oro-package-spec/src/parsers"), ("choosing", "crates/nassun/src/resolver.rs get_resolution")],
  "provenance of every unwrapped value, cut and reached panic in what oro's main reaches (does data decide it?), discharged by must-facts over MIR (tested, filtered, found in the same text, moved to a boundary) or constants",
  "What counts as data: fields of types read from outside, JSON and KDL values, headers, addresses, parts of text, file names in packages. Arithmetic overflow (checked only in debug builds), panics inside foreign crates, running out of memory or stack, the terminal and the user's own oro.kdl are not looked into.",
  observe=["exit status", "error messages"])

P("P24", "Concurrent work never waits for itself",
  "Whatever the order in which fetches, extractions and scripts finish, the work goes on to its end: no lock is held while waiting for something that may take it, and no lock that blocks a thread is held while waiting at all or taken again while held. "
  "Code of a future never blocks its thread for another future, and both outputs of a script's process are being read, each to its end, whenever the process is waited for, however much it prints. "
  "What the resolver counts as under way goes up with each request sent off and down by every request an answer settles, and a limit on how much runs at once is never zero where zero would run nothing.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of the tasks, every amount of output of a script and every configured limit",
  "A test runs one interleaving of a small tree with quiet scripts; waiting for oneself shows only under particular orders, amounts of output or settings.",
  ["crates/node-maintainer/src/resolver.rs", "crates/node-maintainer/src/linkers/mod.rs", "crates/node-maintainer/src/linkers/hoisted.rs", "crates/node-maintainer/src/linkers/isolated.rs", "crates/node-maintainer/src/maintainer.rs", "crates/nassun/src/fetch/npm.rs", "crates/oro-script/src/lib.rs"],
  [("locks", "crates/node-maintainer/src/resolver.rs fetches; crates/node-maintainer/src/linkers pending_rebuild, remaining; crates/nassun/src/fetch/npm.rs packument maps"), ("pipes and counts", "crates/node-maintainer/src/linkers/mod.rs run_dep_script; crates/node-maintainer/src/resolver.rs in_flight, concurrency")],
  "may-hold dataflow of lock guards over MIR with drops and suspension points, checked against the locks reachable from what is awaited; call-graph reachability of blocking calls from futures; typestate of pipes and of the counter; provenance of limits",
  "That queues of scripts are closed is P12's and that waiting requirements get their edge P14's. Locks of other kinds than mutexes, read-write locks and concurrent maps, and waits inside foreign crates, are not looked into; whether a script or the network ever answers is not decided.",
  observe=["termination of commands"])

P("P26", "Configured options mean what they mean on the command line",
  "An option in oro.kdl or the environment takes effect as if it were on the command line, with the value, list, table or flag configured there, unless it or its negation is given, and never as an argument. "
  "The project's oro.kdl, looked for in the root of the project the current directory is in, overrides the environment and the user's file, and with --config only that file is loaded; any of them may be missing. "
  "Every long option has a negation, and the program and each subcommand get their options.",
  ["configurations", "inputs"],
  "every option, every kind of configured value, every combination of sources and every command line",
  "The crate's three tests read one string each; none layers a configuration over a command line.",
  ["crates/oro-config/src/lib.rs", "crates/oro-config/src/kdl_source.rs", "src/lib.rs"],
  [("layering", "crates/oro-config/src/lib.rs layered_args, is_given, with_negations; src/lib.rs layer_command_args, current_command, load"), ("sources", "crates/oro-config/src/lib.rs OroConfigOptions::load; crates/oro-config/src/kdl_source.rs; src/lib.rs build_config")],
  "must-facts over MIR at each argument added (not given, before `--`, flag or value, value not pending) and each source of configuration (order, presence, --config); value provenance of keys, values, kinds, defaults and negations",
  "Decides how configuration becomes arguments. Whether the user's file or the environment wins is left open, as the documentation and the code disagree. How clap parses the arguments, how the configuration library merges sources, and what short options given mean are not decided beyond the use of their interfaces.",
  observe=["effect of options", "requests made"])

P("P29", "Options take effect, and are what takes effect",
  "Cache location, retries, proxy, proxy address and exclusions, default tag, project root, registry, package source, layout, copying instead of linking, and the numbers of concurrent fetches and scripts: each place in the client, the package source, the resolver and the linkers that such an option is for gets exactly the value the user gave, and its default only where none was given. "
  "In every oro command each of these settings is made on every way to the thing it configures, the proxy's exclusions before its address. "
  "Each limit, retry policy, proxy, response cache and layout is made from the option of its name: scripts run within the script limit, fetches and linking within the other, nothing is linked where copies were asked for, and no proxy is used unless one was asked for.",
  ["configurations", "programs"],
  "every combination of options, and every function an option's value passes through",
  "Tests use the default options: none sets a retry count, a proxy, a tag or a limit and observes it.",
  ["src/apply_args.rs", "src/nassun_args.rs", "src/client_args.rs", "crates/oro-client/src/client.rs", "crates/nassun/src/client.rs", "crates/node-maintainer/src/maintainer.rs", "crates/node-maintainer/src/linkers/mod.rs", "crates/node-maintainer/src/linkers/hoisted.rs", "crates/node-maintainer/src/linkers/isolated.rs", "crates/node-maintainer/src/resolver.rs"],
  [("forwarding", "src/apply_args.rs configured_maintainer; src/nassun_args.rs to_nassun; src/client_args.rs try_from"), ("use", "crates/oro-client/src/client.rs build; crates/node-maintainer/src/maintainer.rs resolve_manifest, resolve_spec; crates/node-maintainer/src/linkers extract")],
  "value-provenance analysis of every store to an option field over MIR, across callers; must-facts for the settings made before each build; condition facts at each use",
  "Decides the way of each option from the parsed arguments to what is made from it. How clap and the configuration files produce the parsed arguments, the credentials (P05), scoped registries (P07), --locked (P11), the lockfile switches (P11, P22) and script switches (P12), and what reqwest, its retry policy and the HTTP cache do with their settings are not decided here." + TB,
  observe=["requests made", "layout of node_modules", "hard links", "number of concurrent scripts"])

P("P22", "What fails is never reported as success",
  "When changing, reading or parsing a file, asking the registry, using the cache or running a program fails, the operation that needed it fails too: no such error is dropped, nor followed by a good end, unless the work is then done another way that itself succeeds, or what failed is that a file to be removed or read is not there. "
  "Passed over on purpose are only lockfiles and records of earlier applies that cannot be used, failures of optional packages' scripts, support probes (whose answer is then no), script interpreter lines, the bodies of refusals, and the CLI's own logs. "
  "Whatever is started is waited for.",
  ["inputs", "fault_sequences"],
  "every operation of the workspace that does such work, every point at which it can fail and every path from there",
  "Tests make hardly any operation fail: the error branches of hundreds of fallible calls are never taken.",
  ["src/apply_args.rs", "src/lib.rs", "crates/node-maintainer/src/maintainer.rs", "crates/node-maintainer/src/linkers/hoisted.rs", "crates/node-maintainer/src/linkers/isolated.rs", "crates/nassun/src/package.rs", "crates/nassun/src/tarball.rs", "crates/nassun/src/fetch/git.rs", "crates/oro-client/src/api/packument.rs"],
  [("file system, network, process and cache operations", "all crates of the workspace, crates/*/src and src"), ("fallbacks", "crates/nassun/src/package.rs extract_to_dir_inner; crates/nassun/src/fetch/git.rs fetch_to_temp_dir")],
  "error-fate dataflow over MIR: every error of an operation that does work is followed to what consumes it; effect classes over the call graph",
  "Decides every call whose Result is a local value, an item of a loop or a closure's parameter. An error that is put aside in a variable, a list or a channel counts as reported, as does one that becomes another operation's error value. Statuses that are not errors (HTTP: P08; scripts: P12) are not looked at here." + TB,
  observe=["exit status", "Result of the libraries' functions"])

P("P21", "Git dependencies are exactly the revision asked for",
  "A git dependency's metadata and files are read only after git, run in a temporary directory of its own, cloned the repository the spec names and checked out the committish asked for, or for a semver range the tag of the greatest version that satisfies it, each with success; a hosted repository may be downloaded as the tarball of that committish instead, put where it is then read. "
  "Everything else is a failure. "
  "Nothing a spec says can be taken by git for an option or for a file's name.",
  ["inputs", "fault_sequences"],
  "every git spec, every outcome of every git command and of the tarball's download",
  "The tests clone two local repositories and take the success branch everywhere.",
  ["crates/nassun/src/fetch/git.rs"],
  [("fetching", "crates/nassun/src/fetch/git.rs fetch_to_temp_dir, fetch_clone, fetch_tarball"), ("reading", "crates/nassun/src/fetch/git.rs name, metadata, packument, corgi_metadata, corgi_packument")],
  "must-facts over MIR: command lines rebuilt from builder calls; success of each command needed for the next, for success and for reading",
  "Decides every path of the git fetcher. What git itself does, whether a host's URL leads to the repository, and how a tag's name is read as a version are not decided." + TB,
  observe=["oro view", "package.json and files read", "errors"])

P("P18", "Commands of packages are linked where their dependents find them",
  "Linking goes through every package of the tree, installed just now or before, and links each of its commands in the .bin directory next to it (hoisted; a scope's directory aside) or of every package that depends on it (isolated), replacing what was there under that name. "
  "A link leads to the file in the very package whose manifest lists it; a listed file that is not there is passed over and is no failure, while any other error is. "
  "A package's commands are all those listed by its bin, whatever its form, or found below directories.bin in the package itself.",
  ["inputs", "histories"],
  "every tree, every manifest's commands and everything that was in node_modules before",
  "No test links commands of an installed tree; what matters is a second apply, scoped packages, several dependents, several forms of bin and missing files.",
  ["crates/node-maintainer/src/linkers/hoisted.rs", "crates/node-maintainer/src/linkers/isolated.rs", "crates/node-maintainer/src/linkers/mod.rs", "crates/oro-common/src/build_manifest.rs"],
  [("linking", "crates/node-maintainer/src/linkers/hoisted.rs link_bins"), ("linking", "crates/node-maintainer/src/linkers/isolated.rs link_bins, link_dep_bins"), ("reading a manifest's commands", "crates/oro-common/src/build_manifest.rs normalize")],
  "must-facts per element over MIR: every package, dependent and command is dealt with; symbolic comparison of paths",
  "Decides every path through the loops of linking and of reading a manifest. Links of packages that are no longer part of the tree, and which of two packages' commands of the same name wins, are not decided." + TB,
  observe=["node_modules/.bin"])

P("P31", "Version ranges match the versions npm's semver says they match",
  "For every range and version, oro takes the version to satisfy the range exactly if npm's semver does, prereleases included. Which of the published versions is newest is decided the same way.",
  ["inputs"], "every range and every version", "The tests sample a few ranges; the grammar and the order of versions have endless cases.",
  ["crates/nassun/src/resolver.rs", "crates/oro-package-spec/src/lib.rs"], [("ranges", "node_semver::Range::satisfies, used in crates/nassun/src/resolver.rs and crates/node-maintainer/src/resolver.rs")],
  "none", "", na="the matching is done by the foreign crate node-semver, which is not part of this tree; that the resolver asks it, and about which versions, is P19's and P14's")

P("P33", "An interrupted write of the cache leaves no broken entry",
  "After a crash or power loss at any point, whatever the cache's index names is there completely, or is reported as missing or broken and fetched again.",
  ["crash_points"], "every point at which the process or the machine stops", "No test stops the process in the middle of a write.",
  ["crates/nassun/src/tarball.rs", "crates/oro-client/src/client.rs"], [("cache", "cacache's index and content, written by crates/nassun/src/tarball.rs")],
  "none", "", na="the order in which content and index reach the disk is decided inside the foreign crate cacache and by the file system; that oro writes records only of complete, verified packages and falls back when reading one fails is P03's")

P("P35", "Commands of packages work on Windows",
  "Every command linked on Windows runs its script with the interpreter its first line names, with all arguments, whatever they contain.",
  ["inputs"], "every script and every argument", "The tests compare generated shims with snapshots and never run them.",
  ["crates/oro-shim-bin/src/lib.rs", "crates/node-maintainer/src/linkers/mod.rs"], [("shims", "crates/oro-shim-bin/src/lib.rs")],
  "none", "", na="a shim is text interpreted by cmd.exe, PowerShell or sh, so whether it runs the script with its arguments is their behaviour and not in the source; the code that decides when to write one is compiled for Windows only")
