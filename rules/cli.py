"""Command names of the entry point table lead to functions that take what the dispatchers pass."""
import ast
import os
import tomllib

from sa.check import custom

C = "variantlib.commands."
WANTED = {
    "variantlib.actions": {
        "add-wheel-to-index-json": C + "add_wheel_to_index_json", "analyze-platform": C + "analyze_platform", "analyze-wheel": C + "analyze_wheel",
        "config": C + "config.main", "generate-index-json": C + "generate_index_json", "get-variant-hash": C + "get_variant_hash",
        "make-variant": C + "make_variant", "plugins": C + "plugins.main", "unmake-variant": C + "unmake_variant",
        "update-pyproject-toml": C + "update_pyproject_toml"},
    "variantlib.actions.config": {"list-paths": C + "config.list_paths", "show": C + "config.show"},
    "variantlib.actions.plugins": {"list": C + "plugins.list_plugins", "get-configs": C + "plugins.get_configs"},
}


def accepts(fn, positional, keywords):
    a = fn.args
    pos = [x.arg for x in (*a.posonlyargs, *a.args)]
    free = pos[positional:]
    if len(pos) < positional and a.vararg is None:
        return f"takes fewer than {positional} positional arguments"
    need = pos[positional:len(pos) - len(a.defaults)] if len(pos) > positional else []
    need += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    for k in keywords:
        if k not in free and k not in [x.arg for x in a.kwonlyargs] and a.kwarg is None:
            return f"does not accept {k}="
    left = [x for x in need if x not in keywords]
    return f"also needs {', '.join(left)}" if left else None


@custom("commands.entry_points", "every command name is registered for a function of this package that takes the arguments it is called with")
def entry_points(p, r):
    path = os.path.join(p.root, "pyproject.toml")
    try:
        with open(path, "rb") as f:
            project = tomllib.load(f).get("project", {})
    except (OSError, tomllib.TOMLDecodeError) as e:
        r.unsure(f"{path}: {e}")
        return
    tables = {**project.get("entry-points", {}), "scripts": project.get("scripts", {})}
    wanted = {**WANTED, "scripts": {"variantlib": C + "main"}}
    for group, names in wanted.items():
        have = tables.get(group, {})
        for name, mod in names.items():
            if name not in have:
                r.violate(f"pyproject.toml [{group}]", f"the command {name!r} is not registered", f"{group}:{name}:missing")
                continue
            target_mod, _, target = have[name].partition(":")
            r.fact(f"{group}: {name} = {have[name]}")
            ref = p.resolve(target_mod, target) if target_mod in p.modules else None
            if ref is None or ref[0] != "func":
                r.violate(f"pyproject.toml [{group}]", f"the command {name!r} is registered for {have[name]}, which is not a function of this package", f"{group}:{name}:target")
                continue
            fn = p.funcs[ref[1]].node
            if target_mod != mod:
                others = {m for g in wanted.values() for m in g.values()} - {mod}
                if target_mod in others:
                    r.violate(f"pyproject.toml [{group}]", f"the command {name!r} is registered for another command's function {have[name]}", f"{group}:{name}:other")
                else:
                    r.unsure(f"the command {name!r} is registered for {have[name]}")
                continue
            err = accepts(fn, 0 if group == "scripts" else 1, ["plugin_loader"] if group.endswith(".plugins") else [])
            if err:
                r.violate(f"{os.path.relpath(p.modules[target_mod].path, p.root)}:{fn.lineno} ({ref[1]})",
                          f"the function of the command {name!r} {err}", f"{group}:{name}:signature")
