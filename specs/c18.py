"""C18: a jar is declared verified only if every verification stage passed"""
import io, random, zipfile
from pv.api import *

MODULES = ("javatools.manifest", "javatools.crypto", "javatools.jarutil", "M2Crypto", "M2Crypto.SMIME", "M2Crypto.X509", "M2Crypto.BIO")

EXTENSIONS = ("RSA", "DSA", "EC")
MANIFEST = "META-INF/MANIFEST.MF"


def content(name):
    return abstract("content", (name,), "str")


class Zip:
    """an archive, opened for reading"""
    def __init__(self, names):
        self.names = names

    def namelist(self):
        return self.names

    def read(self, name):
        return content(name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


@contract
class Stages(Contract):
    """the entries of the jar and the outcome of every stage are arbitrary"""
    prop = "C18"
    name = "verification stages"
    functions = ("javatools.jarutil:verify",)
    split_inst = False
    concrete = False
    must_cover = ("no signature file", "ambiguous", "not the one asked for", "no block", "bad block", "no manifest", "bad manifest",
                  "bad entry", "verified", "one of several")

    def inputs(self, w):
        return {"names": w.seq("entry", lambda w, k: w.str("name")),
                "sf": w.str("sf") if w.choice("asked", (True, False)) else None,
                "block": w.bool("block"), "manifest": w.bool("manifest"),
                "sections": w.seq("section", lambda w, k: w.str("name"), kind=list),
                "entries": w.seq("failing", lambda w, k: w.str("name"), kind=list)}

    def callee(self, L, inp):
        def verify_signature_block(certificate_file, content, signature):
            # raises unless the block is valid; proved about the wrapper in C26
            ensure(certificate_file == "cert.pem", "the trusted certificate")
            ensure(content == self.chosen["data"], "the signature file is what is signed")
            ensure(signature == self.chosen["block"], "the block of that signature file")
            self.seen["block"] = True
            if not inp["block"]:
                raise L.crypto.SignatureBlockVerificationError("bad")

        def parse(self, data):
            self.of = data

        def load_from_jar(self, jarfile):
            ensure(jarfile == "x.jar", "the jar")
            if not inp["manifest"]:
                raise L.jarutil.MissingManifestError("missing")
            self.of = content(MANIFEST)

        def verify_manifest(sf, manifest):
            ensure(sf.of == self.chosen["data"], "the signature file that was validated")
            ensure(manifest.of == content(MANIFEST), "the manifest of the jar")
            self.seen["manifest"] = True
            return inp["sections"]

        def verify_jar_checksums(manifest, jar_file, strict=True):
            ensure(manifest.of == content(MANIFEST), "the manifest of the jar")
            ensure(jar_file == "x.jar", "the jar")
            ensure(strict, "every entry must be verified")
            self.seen["entries"] = True
            return inp["entries"]

        return {"zipfile:ZipFile": lambda *a, **k: Zip(inp["names"]),
                "javatools.manifest:file_matches_sigfile": lambda name: abstract("signature file", (name,), "bool"),
                "javatools.crypto:verify_signature_block": verify_signature_block,
                "javatools.manifest:Manifest.parse": parse,
                "javatools.manifest:Manifest.load_from_jar": load_from_jar,
                "javatools.manifest:SignatureManifest.verify_manifest": verify_manifest,
                "javatools.manifest:Manifest.verify_jar_checksums": verify_jar_checksums}

    def select(self, inp):
        """(the signature file to use, None)  or (None, the error)"""
        names, sf = inp["names"], inp["sf"]
        found = flat(len(names), lambda k: (names[k],) if abstract("signature file", (names[k],), "bool") else ())
        n = len(found)
        if n == 0:
            cover("no signature file")
            return None, "JarSignatureMissingError"
        if sf is None:
            if n > 1:
                cover("ambiguous")
                return None, "VerificationError"
            return found[0], None
        want = "META-INF/" + sf
        if n == 1:
            if found[0] == want:
                return want, None
        elif want in found:
            cover("one of several")
            return want, None
        cover("not the one asked for")
        return None, "VerificationError"

    def run(self, L, inp):
        self.seen = {}
        self.chosen = {"data": None, "block": None}
        name, error = self.select(inp)
        self.error = error
        if error is None:
            stem = "META-INF/" + name[9:-3] + "."
            block = None
            for x in EXTENSIONS:
                if stem + x in inp["names"]:
                    block = stem + x
                    break
            if block is None:
                self.error = "JarSignatureMissingError"
                cover("no block")
            else:
                self.chosen = {"data": content(name), "block": content(block)}
        return L.jarutil.verify("cert.pem", "x.jar", inp["sf"])

    def spec(self, inp):
        if self.error is not None:
            raise Raises(self.error)
        if not inp["block"]:
            cover("bad block")
            raise Raises("SignatureBlockFileVerificationError")
        if not inp["manifest"]:
            cover("no manifest")
            raise Raises("MissingManifestError")
        if len(inp["sections"]) > 0:
            cover("bad manifest")
            raise Raises("ManifestChecksumError")
        if len(inp["entries"]) > 0:
            cover("bad entry")
            raise Raises("JarChecksumError")
        cover("verified")
        ensure(self.seen.get("block") and self.seen.get("manifest") and self.seen.get("entries"), "every stage was run")
        return None


# ---------------------------------------------------------------- the command

class Out:
    """what is written to standard output"""
    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text = self.text + s

    def flush(self):
        pass


OUTCOMES = (None, "VerificationError", "SignatureBlockFileVerificationError", "ManifestChecksumError", "JarChecksumError",
            "JarSignatureMissingError", "MissingManifestError", "CryptoDisabled", "ValueError", "KeyError", "OSError")


@contract
class Command(Contract):
    prop = "C18"
    name = "verify command"
    functions = ("javatools.jarutil:cli_verify_jar_signature", "javatools.jarutil:main")
    must_cover = ("verified", "failed", "usage")
    cases_quick = 600

    def inputs(self, w):
        return (w.choice("args", (("x.jar", "c.pem"), ("x.jar", "c.pem", "K.SF"), ("x.jar",), (), ("a", "b", "c", "d"))),
                w.choice("outcome", OUTCOMES), w.choice("command", (None, "v", "vie", "view")))

    def run(self, L, inp):
        args, outcome, command = inp
        calls = []

        def verify(certificate, jar_file, sf_name=None):
            calls.append((certificate, jar_file, sf_name))
            if outcome is not None:
                for m in (L.jarutil, L.crypto):
                    if hasattr(m, outcome):
                        raise getattr(m, outcome)("it failed")
                raise {"ValueError": ValueError, "KeyError": KeyError, "OSError": OSError}[outcome]("it failed")
        import sys
        save, saved = L.jarutil.verify, sys.stdout
        out = Out()
        L.jarutil.verify, sys.stdout = verify, out
        try:
            if command is None:
                r = L.jarutil.cli_verify_jar_signature(list(args))
            else:
                r = L.jarutil.main(["jarutil", command] + list(args))
        except (Exception, SystemExit) as e:
            # what the process exits with
            r = e.code if isinstance(e, SystemExit) else 1
        finally:
            L.jarutil.verify, sys.stdout = save, saved
        return r, "Jar verified." in out.text, list(calls)

    def post(self, inp, got):
        args, outcome, command = inp
        ensure(got[0] == "ret", "the command ends")
        code, said, calls = got[1]
        if len(args) in (2, 3):
            ensure(list(calls) == [(args[1], args[0], args[2] if len(args) == 3 else None)], "the jar is verified as asked")
            good = outcome is None
            cover("verified" if good else "failed")
        else:
            cover("usage")
            good = False
        if good:
            ensure(code == 0 or code is None, "exit status 0")
            ensure(said, "it says so")
        else:
            ensure(code is not None and (not isinstance(code, int) or code % 256 != 0), "exit status is not 0")
            ensure(not said, "it does not say so")


# ---------------------------------------------------------------- real jars

def b64(data):
    import base64, hashlib
    return base64.b64encode(hashlib.sha256(data).digest()).decode("ascii")


@contract
class Jars(Contract):
    """real jars; the validation of the block itself is replaced by one that tests can satisfy"""
    prop = "C18"
    name = "jars"
    functions = ("javatools.jarutil:verify", "javatools.jarutil:cli_verify_jar_signature")
    symbolic = False
    bound = "random jars of up to six entries"
    must_cover = ("none", "ambiguous", "wrong name", "no block", "bad block", "no manifest", "bad manifest", "bad entry", "verified")
    cases_quick = 1200
    cases_thorough = 8000

    def inputs(self, w):
        return (w.int("seed", 0, 2 ** 31),)

    def make(self, seed):
        r = random.Random(seed)
        files = [(n, bytes(r.randrange(256) for _ in range(r.randrange(9)))) for n in r.sample(("a", "b/c.class", "x.SF", "META-INF/x.txt"), r.randrange(4))]
        p = r.choice((0.0, 0.0, 0.25))
        mf = [b"Manifest-Version: 1.0\r\n\r\n"] + [("Name: %s\r\nSHA-256-Digest: %s\r\n\r\n" % (n, b64(d + (b"x" if r.random() < p else b"")))).encode()
                                                   for n, d in sorted(files)]
        entries = list(files)
        if r.random() < 0.97:
            entries.append((MANIFEST, b"".join(mf)))
        for key in r.sample(("K", "K2", "x.SF", "k", "K.RSA"), r.choice((0, 1, 1, 1, 1, 2, 2, 3))):
            bad = r.random() < p
            sf = "Signature-Version: 1.0\r\nSHA-256-Digest-Manifest: %s\r\n\r\n" % b64(b"".join(mf) + (b"x" if bad else b""))
            sf = sf.encode()[:-2] + ("K: %s\r\n\r\n" % key).encode()
            entries.append(("META-INF/%s%s" % (key, r.choice((".SF", ".SF", ".SF", ".sf"))), sf))
            for ext in r.sample(EXTENSIONS, r.choice((0, 1, 1, 1, 1, 1, 2))):
                entries.append(("META-INF/%s.%s" % (key, ext), b"block " + (sf if r.random() >= p else b"?")))
        r.shuffle(entries)
        sf = r.choice((None, None, None, "K.SF", "K2.SF", "x.SF", "x.SF.SF", "k.sf"))
        return entries, sf

    def run(self, L, inp):
        import os, tempfile
        entries, sf = self.make(inp[0])

        def block(certificate, data, signature):
            if certificate != "c.pem" or signature != b"block " + data:
                raise L.crypto.SignatureBlockVerificationError("no")
        save = L.jarutil.verify_signature_block
        L.jarutil.verify_signature_block = block
        with tempfile.TemporaryDirectory() as d:
            fn = os.path.join(d, "x.jar")
            with zipfile.ZipFile(fn, "w") as z:
                for n, data in entries:
                    z.writestr(n, data)
            try:
                try:
                    code = L.jarutil.cli_verify_jar_signature([fn, "c.pem"] + ([sf] if sf else []))
                except Exception:
                    code = 1
                try:
                    v = L.jarutil.verify("c.pem", fn, sf)
                except Exception as e:
                    v = type(e).__name__
            finally:
                L.jarutil.verify_signature_block = save
        return v, code

    def post(self, inp, got):
        entries, sf = self.make(inp[0])
        have = dict(entries)
        ensure(got[0] == "ret", "there is a verdict")
        v, code = got[1]
        ensure((v is None) == (code == 0), "exit status %r for %r" % (code, v))

        def want():
            found = [n for n, _ in entries if n.startswith("META-INF/") and n.upper().endswith(".SF")]
            if not found:
                cover("none")
                return "JarSignatureMissingError"
            if sf is None and len(found) > 1:
                cover("ambiguous")
                return "VerificationError"
            if sf is not None and "META-INF/" + sf not in found:
                cover("wrong name")
                return "VerificationError"
            name = found[0] if sf is None else "META-INF/" + sf
            blocks = [name[:-2] + x for x in EXTENSIONS if name[:-2] + x in have]
            if not blocks:
                cover("no block")
                return "JarSignatureMissingError"
            if have[blocks[0]] != b"block " + have[name]:
                cover("bad block")
                return "SignatureBlockFileVerificationError"
            if MANIFEST not in have:
                cover("no manifest")
                return "MissingManifestError"
            if b64(have[MANIFEST]) not in have[name].decode():
                cover("bad manifest")
                return "ManifestChecksumError"
            for n, d in entries:
                if not n.startswith("META-INF/") or n.endswith(".txt"):
                    if ("Name: %s\r\nSHA-256-Digest: %s\r\n" % (n, b64(d))).encode() not in have[MANIFEST]:
                        cover("bad entry")
                        return "JarChecksumError"
            cover("verified")
            return None
        w = want()
        ensure(v == w, "the verdict is %r, not %r" % (v, w))
