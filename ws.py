"""Generates the shadow workspaces under .ws from /repo's current tree."""
import os
import re
import shutil
import tomllib

# name -> (members, dependency overrides)
STUBS = "../../stubs"


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def symlink(target, path):
    if os.path.islink(path):
        if os.readlink(path) == target:
            return
        os.unlink(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    os.symlink(target, path)


def crate_dir(root, crate):
    return os.path.join(root, "h", crate)


def workspace(root, repo, name, members, overrides):
    d = os.path.join(root, ".ws", name)
    os.makedirs(d, exist_ok=True)
    symlink(os.path.join(repo, "crates"), os.path.join(d, "crates"))
    text = open(os.path.join(repo, "Cargo.toml")).read()
    listing = "members = [\n" + "".join(f'    "{m}",\n' for m in members) + "]"
    text = re.sub(r"^members\s*=\s*\[.*?^\]", lambda _: listing, text, count=1, flags=re.M | re.S)
    for dep, val in overrides.items():
        text, n = re.subn(r"^" + re.escape(dep) + r"\s*=.*$", lambda _: f"{dep} = {val}", text, count=1, flags=re.M)
        if n != 1:
            text = text.replace("[workspace.dependencies]", f"[workspace.dependencies]\n{dep} = {val}", 1)
    # profiles of the repository do not matter here and only warn
    write_if_changed(os.path.join(d, "Cargo.toml"), text)


def generate(root, repo):
    workspace(root, repo, "real", ["crates/tls-core"], {"tracing": f'{{ path = "{STUBS}/tracing" }}'})
    workspace(root, repo, "uf", ["crates/tls-core"], {"tracing": f'{{ path = "{STUBS}/tracing" }}', "hmac": f'{{ path = "{STUBS}/hmac" }}'})
    workspace(root, repo, "pki", ["crates/tls-core"], {"tracing": f'{{ path = "{STUBS}/tracing" }}', "rustls-webpki": f'{{ path = "{STUBS}/webpki" }}',
                                                     "sct": f'{{ path = "{STUBS}/sct" }}'})
