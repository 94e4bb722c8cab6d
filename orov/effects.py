"""Tables of external effects, by resolved callee."""
import re

# callee -> (kind, index of the path argument the effect applies to)
FS = {}


def _add(kind, idx, names):
    for n in names:
        FS[n] = (kind, idx)


_add("delete", 0, [p + n for p in ("std::fs::", "async_std::fs::") for n in ()])
for mod, form in (("std::fs", "std::fs::%s"), ("async_std::fs", "async_std::fs::%s::%s")):
    for kind, idx, names in (
        ("delete", 0, ["remove_file", "remove_dir", "remove_dir_all"]),
        ("rename", 1, ["rename"]),
        ("write", 0, ["write"]),
        ("write", 1, ["copy"]),
        ("mkdir", 0, ["create_dir", "create_dir_all"]),
        ("perm", 0, ["set_permissions"]),
        ("link", 1, ["hard_link"]),
    ):
        for n in names:
            k = form % n if mod == "std::fs" else form % (n, n)
            FS[k] = (kind, idx)
FS["std::fs::File::create"] = ("write", 0)
FS["std::fs::File::create_new"] = ("write", 0)
FS["std::fs::OpenOptions::open"] = ("open", 1)
FS["async_std::fs::file::File::create"] = ("write", 0)
FS["async_std::fs::open_options::OpenOptions::open"] = ("open", 1)
FS["std::os::unix::fs::symlink"] = ("symlink", 1)
FS["async_std::os::unix::fs::symlink"] = ("symlink", 1)
FS["std::fs::soft_link"] = ("link", 1)
FS["std::fs::DirBuilder::create"] = ("mkdir", 1)
FS["async_std::fs::dir_builder::DirBuilder::create"] = ("mkdir", 1)
FS["mkdirp::mkdirp"] = ("mkdir", 0)

SPAWN = {"std::process::Command::spawn", "std::process::Command::output", "std::process::Command::status",
         "async_process::Command::spawn", "async_process::Command::output", "async_process::Command::status"}


def effect(call):
    return FS.get(call.res) or FS.get(call.decl)
