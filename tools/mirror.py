"""Mirrors /repo's working tree to <work> so that it can be compiled offline.

Same substitutions as the sandbox's own /opt/vp/scope/mirror.py (see /opt/vp/BUILD.json):
the ssi umbrella crate is replaced by its component crates, with the `ssi::` paths rewritten.
Unlike it, josekit is not dropped but replaced by the stand-in in /verif/josekit-stub, so that
src/core/jwe.rs is compiled too (use --no-jwe to leave it out, as the sandbox's mirror does).
Only what the library consists of is copied: Cargo.toml, src/ and openid4vp-frontend/.
A file is rewritten only when its content changed."""

import os
import re
import sys

SSI_DEPS = b"\n".join(
    [
        b'ssi-caips = { version = "0.3", default-features = false }',
        b'ssi-claims = { version = "0.6", default-features = false, features = ["w3c", "rsa", "ed25519", "secp256k1", "secp256r1", "eip712"] }',
        b'ssi-core = { version = "0.3.0", default-features = false }',
        b'ssi-crypto = { version = "0.2.1", default-features = false }',
        b'ssi-dids = { version = "0.4", default-features = false, features = ["ripemd-160", "secp256k1", "secp256r1"] }',
        b'ssi-eip712 = { version = "0.1", default-features = false }',
        b'ssi-json-ld = { version = "0.3.1", default-features = false }',
        b'ssi-jwk = { version = "0.4", default-features = false, features = ["ripemd-160"] }',
        b'ssi-multicodec = { version = "0.2", default-features = false }',
        b'ssi-rdf = { version = "0.1", default-features = false }',
        b'ssi-security = { version = "0.1", default-features = false }',
        b'ssi-verification-methods = { version = "0.2", default-features = false }',
    ]
)
SSI_MODULES = set(
    "caips claims core crypto dids eip712 json_ld jwk multicodec rdf security verification_methods".split()
)
PRELUDE = {
    name: "ssi_claims::data_integrity::" + name
    for name in "AnyDataIntegrity AnySuite CryptographicSuite DataIntegrity ProofOptions".split()
}
PRELUDE.update(
    (name, "ssi_claims::vc::" + name) for name in ("AnyJsonCredential", "AnyJsonPresentation")
)


def item(text):
    m = re.match(r"(\s*)(\w+)", text)
    if m and m.group(2) in SSI_MODULES:
        return m.group(1) + "ssi_" + text[m.end(1) :]
    m = re.match(r"(\s*)prelude::(\w+)", text)
    if m and m.group(2) in PRELUDE:
        return m.group(1) + PRELUDE[m.group(2)] + text[m.end() :]
    m = re.match(r"(\s*)prelude::\{([^{}]*)\}", text)
    if m:
        names = re.sub(r"\w+", lambda n: PRELUDE.get(n.group(), "ssi::prelude::" + n.group()), m.group(2))
        return m.group(1) + "{" + names + "}" + text[m.end() :]
    return re.sub(r"^(\s*)(?=\S)", r"\1ssi::", text)


def group(body):
    out, depth, start = [], 0, 0
    for i, c in enumerate(body + ","):
        depth += (c == "{") - (c == "}")
        if c == "," and not depth:
            out.append(item(body[start:i]))
            start = i + 1
    return ",".join(out)


def ssi_paths(text):
    out, pos = [], 0
    for m in re.finditer(r"(?<![\w:])(?:::)?ssi::", text):
        if m.start() < pos:
            continue
        out.append(text[pos : m.start()])
        pos = m.end()
        if text[pos : pos + 1] == "{":
            depth, end = 1, pos + 1
            while depth and end < len(text):
                depth += (text[end] == "{") - (text[end] == "}")
                end += 1
            out.append("{" + group(text[pos + 1 : end - 1]) + "}")
        else:
            end = pos + len(re.match(r"(?:prelude::)?(?:\w+|\{[^{}]*\})?", text[pos:]).group())
            out.append(item(text[pos:end]))
        pos = end
    return "".join(out) + text[pos:]


def wanted(repo, jwe):
    yield "Cargo.toml"
    for base in ("src", "openid4vp-frontend"):
        for top, dirs, names in os.walk(os.path.join(repo, base)):
            dirs[:] = [d for d in dirs if d not in (".git", "target")]
            for n in names:
                rel = os.path.relpath(os.path.join(top, n), repo)
                if rel == "src/core/jwe.rs" and not jwe:
                    continue
                if n == "Cargo.lock":
                    continue
                yield rel


def edit(rel, data, jwe, stub):
    if rel == "Cargo.toml":
        new = b'josekit = { path = "%s" }' % stub.encode() if jwe else b""
        data = re.sub(rb"(?m)^josekit\s*=.*$", new, data)
        data = re.sub(rb'(?m)^ssi = \{ version = "0\.14".*$', SSI_DEPS, data)
        # The mirror is a dependency of the harness, never a workspace root of its own.
        return data
    if rel == "src/core/mod.rs" and not jwe:
        data = re.sub(rb"(?m)^pub mod jwe;[ \t]*$", b"", data)
    if rel.endswith(".rs") and b"ssi::" in data:
        try:
            return ssi_paths(data.decode()).encode()
        except UnicodeDecodeError:
            return data
    return data


def put(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def mirror(repo, work, stub, jwe=True):
    rels = set(wanted(repo, jwe))
    for rel in rels:
        with open(os.path.join(repo, rel), "rb") as f:
            put(os.path.join(work, rel), edit(rel, f.read(), jwe, stub))
    for top, dirs, names in os.walk(work):
        dirs[:] = [d for d in dirs if d != "target"]
        for n in names:
            rel = os.path.relpath(os.path.join(top, n), work)
            if rel not in rels:
                os.remove(os.path.join(top, n))


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    mirror(args[0], args[1], args[2], jwe="--no-jwe" not in sys.argv)
