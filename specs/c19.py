"""C19: signing a jar produces a jar whose digests verify, with its content kept"""
import base64, hashlib, io, os, random, shutil, sys, tempfile, zipfile
from pv.api import *
from specs.c17 import DIGESTS, Digest, digest_of, get_digest
from specs.c18 import Out
from specs.c26 import Certificates, replaced

MODULES = ("javatools", "javatools.change", "javatools.dirutils", "javatools.manifest", "javatools.crypto", "javatools.jarutil",
           "M2Crypto", "M2Crypto.SMIME", "M2Crypto.X509", "M2Crypto.BIO", "M2Crypto.EVP")

MANIFEST = "META-INF/MANIFEST.MF"
EXTENSIONS = ("SF", "RSA", "DSA", "EC")
NAMES = ("MD5", "SHA1", "SHA-256", "SHA-384", "SHA-512")
DIGESTING = {"javatools.manifest:_get_digest": get_digest, "javatools.manifest:b64_encoded_digest": digest_of}


def content(name):
    return abstract("content", (name,), "str")


class Zip:
    """an archive, opened for reading"""
    def __init__(self, names):
        self.names = names

    def namelist(self):
        return self.names

    def read(self, name):
        return content(name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


# ---------------------------------------------------------------- the digests of the entries

class Recorder:
    """a section of the manifest, whose changes are recorded"""
    def __init__(self, name, log):
        self.name, self.log = name, log

    def __setitem__(self, k, v):
        self.log.append((self.name, k, v))


@contract
class Entries(Contract):
    """any number of entries of any name and content"""
    prop = "C19"
    name = "entry digests"
    functions = ("javatools.manifest:Manifest.add_jar_entries",)
    split_inst = False
    summaries = dict(DIGESTING, **{"javatools.manifest:file_skips_verification": lambda name: abstract("exempt", (name,), "bool")})
    concrete = False

    def inputs(self, w):
        return (w.names("entry", 0), w.choice("digest", NAMES))

    def callee(self, L, inp):
        def create_section(self_, name, overwrite=True):
            # proved as sections of a manifest: the one on record, or a new one
            ensure(not overwrite, "what else the manifest says of an entry is kept")
            return Recorder(name, self.log)

        def archive(fn, *a, **k):
            ensure(fn == "x.jar", "the jar")
            return Zip(inp[0])
        return {"zipfile:ZipFile": archive, "javatools.manifest:Manifest.create_section": create_section}

    def run(self, L, inp):
        self.log = []
        L.manifest.Manifest().add_jar_entries("x.jar", inp[1])
        return tuple(self.log)

    def spec(self, inp):
        names, d = inp

        def one(k):
            n = names[k]
            if abstract("exempt", (n,), "bool"):
                return ()
            return ((n, d + "-Digest", digest_of(content(n), Digest(d))),)
        return flat(len(names), one)


@contract
class CreateSection(Contract):
    prop = "C19"
    name = "sections of a manifest"
    functions = ("javatools.manifest:Manifest.create_section", "javatools.manifest:ManifestSection.__setitem__", "javatools.manifest:ManifestSection.primary")
    must_cover = ("on record", "new")

    def inputs(self, w):
        ns = ("a", "b/c", "META-INF/x", "")
        return {"have": [n for n in ns if w.bool("has " + n)], "name": w.choice("name", ns), "value": w.str("value"),
                "overwrite": w.choice("overwrite", (True, False)), "key": w.choice("key", ("SHA-256-Digest", "X"))}

    def run(self, L, inp):
        m = L.manifest.Manifest()
        for n in inp["have"]:
            m.create_section(n)["X"] = "x of " + n
        s = m.create_section(inp["name"], overwrite=inp["overwrite"])
        s[inp["key"]] = inp["value"]
        return (s.primary(), s is m.sub_sections[inp["name"]], [(n, list(t.items())) for n, t in m.sub_sections.items()])

    def spec(self, inp):
        name, out = inp["name"], [(n, [("Name", n), ("X", "x of " + n)]) for n in inp["have"]]
        kept = name in inp["have"] and not inp["overwrite"]
        cover("on record" if kept else "new")
        new = [("Name", name)]
        if kept:
            new.append(("X", "x of " + name))
        if kept and inp["key"] == "X":
            new[1] = ("X", inp["value"])
        else:
            new.append((inp["key"], inp["value"]))
        if name in inp["have"]:
            out = [(n, new if n == name else t) for n, t in out]
        else:
            out.append((name, new))
        return (name, True, out)


# ---------------------------------------------------------------- the signature file

def written_at(k, n):
    """which section is written as the k-th"""
    r = abstract("written at", (k,), "int")
    assume(r >= 0)
    assume(r < n)
    return r


class Section:
    def __init__(self, k, sep):
        self.k, self.sep = k, sep

    def primary(self):
        return abstract("section name", (self.k,), "str")

    def get_data(self, linesep=os.linesep):
        ensure(linesep == self.sep, "as it is written")
        return section_data(self.k)

    def store(self, stream, linesep=os.linesep):
        ensure(linesep == self.sep, "with the line ends of the manifest")
        stream.write(section_data(self.k))


def section_data(k):
    return abstract("section", (k,), "bytes")


class Sections:
    """the sections of a manifest, in the order they were added; sorting them gives the order in which they are written"""
    def __init__(self, n, sep):
        self.n, self.sep = n, sep

    def values(self):
        return self

    def at(self, k):
        return Section(k, self.sep)

    def __iter__(self):
        return iter(table(self.n, self.at))

    def __len__(self):
        return self.n

    def pv_sorted(self, key, reverse):
        ensure(key is None and not reverse, "the order of the content")
        return table(self.n, lambda k: self.at(written_at(k, self.n)), list)


def as_written(n):
    """what a manifest with n sections looks like up to the k-th, as it is written"""
    return Rec("manifest", {"text": "bytes"}, {"text": abstract("main section", (), "bytes")},
               lambda k, st: {"text": st["text"] + section_data(written_at(k, n))})


class Stream:
    def __init__(self):
        self.data = b""

    def write(self, data):
        self.data = self.data + data

    def getvalue(self):
        return self.data


@contract
class Store(Contract):
    """any number of sections of any content"""
    prop = "C19"
    name = "manifest as written"
    functions = ("javatools.manifest:Manifest.store", "javatools.manifest:Manifest.get_data", "javatools.manifest:Manifest.get_main_section")
    split_inst = False
    concrete = False

    def inputs(self, w):
        n = w.nat("sections")
        return {"n": n, "text": as_written(n), "own": w.choice("own", (None, "\n", "\r\n")), "given": w.choice("given", (None, "\n", "\r\n"))}

    def sep(self, inp):
        return inp["given"] or inp["own"] or os.linesep

    def callee(self, L, inp):
        def store(self_, stream, linesep=os.linesep):
            # the main section; written as proved in C16
            ensure(linesep == self.sep(inp), "with the line ends of the manifest")
            stream.write(abstract("main section", (), "bytes"))
        return {"javatools.manifest:ManifestSection.store": store, "_io:BytesIO": Stream, "six:BytesIO": Stream}

    def forms(self, inp):
        return {"data": lambda i, init: inp["text"].at(i)["text"]}

    def run(self, L, inp):
        m = L.manifest.Manifest(linesep=inp["own"])
        m.sub_sections = Sections(inp["n"], self.sep(inp))
        try:
            return (m.get_data(inp["given"]), m.get_main_section(inp["given"]))
        finally:
            m.sub_sections = {}

    def spec(self, inp):
        return (inp["text"].at(inp["n"])["text"], abstract("main section", (), "bytes"))


class Mani:
    """a manifest to be signed"""
    def __init__(self, inp):
        n, linesep = inp["n"], inp["linesep"]
        self.whole, self.linesep = inp["text"].at(n)["text"], linesep
        self.sub_sections = Sections(n, linesep or os.linesep)

    def get_main_section(self, linesep=None):
        ensure(linesep is None or linesep == (self.linesep or os.linesep), "as it is written")
        return abstract("main section", (), "bytes")

    def get_data(self, linesep=None):
        ensure(linesep is None or linesep == (self.linesep or os.linesep), "as it is written")
        return self.whole


@contract
class DigestManifest(Contract):
    """any number of sections of any content, in any order"""
    prop = "C19"
    name = "digests of the manifest"
    functions = ("javatools.manifest:SignatureManifest.digest_manifest",)
    split_inst = False
    summaries = DIGESTING
    concrete = False

    def inputs(self, w):
        n = w.nat("sections")
        return {"n": n, "text": as_written(n), "linesep": w.choice("linesep", (None, "\n", "\r\n")), "digest": w.choice("digest", (None,) + NAMES)}

    def callee(self, L, inp):
        def create_section(self_, name, overwrite=True):
            return Recorder(name, self.log)
        return {"javatools.manifest:Manifest.create_section": create_section}

    def forms(self, inp):
        return {"accum": lambda i, init: inp["text"].at(i)["text"]}

    def run(self, L, inp):
        self.log = []
        sf = L.manifest.SignatureManifest()
        m = Mani(inp)
        if inp["digest"] is None:
            sf.digest_manifest(m)
        else:
            sf.digest_manifest(m, inp["digest"])
        return (sorted((k, v) for k, v in sf.items()), tuple(self.log))

    def spec(self, inp):
        n, d = inp["n"], inp["digest"] or "SHA-256"
        main = [("Signature-Version", "1.0"), (d + "-Digest-Manifest", digest_of(inp["text"].at(n)["text"], Digest(d))),
                (d + "-Digest-Manifest-Main-Attributes", digest_of(abstract("main section", (), "bytes"), Digest(d)))]

        def one(k):
            j = written_at(k, n)
            return (abstract("section name", (j,), "str"), d + "-Digest", digest_of(section_data(j), Digest(d)))
        return (sorted(main), table(n, one))


# ---------------------------------------------------------------- the archive

class Written:
    """an archive being written"""
    def __init__(self, log):
        self.log = log

    def writestr(self, name, data, *a, **k):
        self.log.append((getattr(name, "filename", name), data))

    def close(self):
        self.log.append("closed")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Temporary:
    name = "new.jar"

    def __init__(self, log):
        self.log = log

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.log.append("removed")

    def flush(self):
        pass


CHAIN = ("c1.pem", "c2.pem")


@contract
class Sign(Contract):
    """jars with any number of entries of any name and content; the digests by the contracts above, the block by C26"""
    prop = "C19"
    name = "signed archive"
    functions = ("javatools.jarutil:sign",)
    split_inst = False
    concrete = False

    def inputs(self, w):
        return {"names": w.names("entry", 0), "alias": w.str("alias"), "kind": w.str("key type"), "digest": w.str("digest"), "linesep": w.str("linesep"),
                "given": w.choice("given", ("nothing", "None", "all"))}

    def digest(self, inp):
        return inp["digest"] if inp["given"] == "all" else "SHA-256"

    def callee(self, L, inp):
        want = self.digest(inp)
        self.log = log = []
        self.steps = steps = []

        def load_from_jar(mf, jarfile):
            ensure(jarfile == "x.jar" and steps == [], "the manifest of the jar")
            mf.linesep = inp["linesep"]
            steps.append(("loaded", mf))

        def add_jar_entries(mf, jar_file, digest_name="SHA-256"):
            ensure(jar_file == "x.jar" and digest_name == want, "the digests asked for, of this jar")
            ensure(steps == [("loaded", mf)], "added to what was there")
            steps.append(("added", mf))

        def digest_manifest(sf, manifest, java_algorithm="SHA-256"):
            ensure([s[0] for s in steps] == ["loaded", "added"] and steps[0][1] is manifest, "the finished manifest is digested")
            ensure(java_algorithm == want, "by the digest asked for")
            steps.append(("digested", sf))

        def get_signature(sf, certificate, private_key, extra_certs, digest_algorithm="SHA-256"):
            ensure([s[0] for s in steps] == ["loaded", "added", "digested"] and steps[2][1] is sf, "the finished signature file is signed")
            ensure(certificate == "cert.pem" and private_key == "key.pem" and extra_certs == (CHAIN if inp["given"] == "all" else None), "with the key and certificates given")
            ensure(digest_algorithm == want, "by the digest asked for")
            return abstract("block", (), "bytes")

        def get_data(m, linesep=None):
            ensure(linesep is None, "as it was digested")
            if m is steps[0][1]:
                ensure([s[0] for s in steps][:2] == ["loaded", "added"], "the finished manifest is written")
                return abstract("manifest", (), "bytes")
            ensure(m is steps[2][1], "the signature file")
            return abstract("signature file", (), "bytes")

        def archive(f, mode="r", *a, **k):
            if f == "x.jar":
                ensure(mode in ("r", "a"), "the jar is not emptied")
                return Zip(inp["names"])
            ensure(mode == "w", "the new archive is created")
            return Written(log)

        def private_key_type(key):
            ensure(key == "key.pem", "the key")
            return inp["kind"]

        def copyfile(src, dst):
            ensure(src == "new.jar", "the new archive is what is put in place")
            log.append(("put", dst))
        return {"javatools.manifest:Manifest.load_from_jar": load_from_jar, "javatools.manifest:Manifest.add_jar_entries": add_jar_entries,
                "javatools.manifest:SignatureManifest.digest_manifest": digest_manifest,
                "javatools.manifest:SignatureManifest.get_signature": get_signature, "javatools.manifest:Manifest.get_data": get_data,
                "javatools.crypto:private_key_type": private_key_type, "zipfile:ZipFile": archive,
                "tempfile:NamedTemporaryFile": lambda *a, **k: Temporary(log), "shutil:copyfile": copyfile}

    def replaced(self, inp):
        return tuple("META-INF/" + inp["alias"] + "." + x for x in EXTENSIONS)

    def kept(self, inp, k):
        n = inp["names"][k]
        if n.upper() == MANIFEST:
            return False
        return n not in self.replaced(inp)

    def run(self, L, inp):
        args = {}
        if inp["given"] == "None":
            args = {"digest": None, "output": None, "extra_certs": None}
        elif inp["given"] == "all":
            args = {"digest": inp["digest"], "output": "out.jar", "extra_certs": CHAIN}
        L.jarutil.sign("x.jar", "cert.pem", "key.pem", inp["alias"], **args)
        ensure(len(self.steps) == 3, "every step is taken")
        return tuple(self.log)

    def spec(self, inp):
        names = inp["names"]
        stem = "META-INF/" + inp["alias"] + "."
        head = ((MANIFEST, abstract("manifest", (), "bytes")), (stem + "SF", abstract("signature file", (), "bytes")),
                (stem + inp["kind"], abstract("block", (), "bytes")))
        rest = flat(len(names), lambda k: ((names[k], content(names[k])),) if self.kept(inp, k) else ())
        return head + rest + ("closed", ("put", "out.jar" if inp["given"] == "all" else "x.jar"), "removed")


# ---------------------------------------------------------------- the command

OUTCOMES = {None: 0, "CryptoDisabled": -1, "CannotFindKeyTypeError": 1, "MissingManifestError": 2, "ValueError": "raised"}


@contract
class Command(Contract):
    prop = "C19"
    name = "sign command"
    functions = ("javatools.jarutil:cli_sign_jar", "javatools.jarutil:main")
    cases_quick = 400
    must_cover = ("signed", "failed")

    def inputs(self, w):
        return {"digest": w.choice("digest", (None, "-d", "--digest")), "name": w.choice("name", NAMES), "chain": w.choice("chain", (0, 1, 2)),
                "output": w.choice("output", (None, "-o", "--output")), "outcome": w.choice("outcome", tuple(OUTCOMES)),
                "command": w.choice("command", (None, "s", "sign"))}

    def run(self, L, inp):
        calls = []

        def sign(jar_file, cert_file, key_file, key_alias, extra_certs=None, digest="SHA-256", output=None):
            calls.append((jar_file, cert_file, key_file, key_alias, tuple(extra_certs or ()), digest, output))
            e = inp["outcome"]
            if e is not None:
                for m in (L.jarutil, L.crypto):
                    if hasattr(m, e):
                        raise getattr(m, e)("it failed")
                raise ValueError("it failed")
        args = []
        if inp["digest"]:
            args += [inp["digest"], inp["name"]]
        for k in range(inp["chain"]):
            args += ["-c", "chain%d.pem" % k]
        if inp["output"]:
            args += [inp["output"], "out.jar"]
        args += ["x.jar", "c.pem", "k.pem", "ALIAS"]
        save, saved = L.jarutil.sign, sys.stdout
        L.jarutil.sign, sys.stdout = sign, Out()
        try:
            if inp["command"] is None:
                r = L.jarutil.cli_sign_jar(args)
            else:
                r = L.jarutil.main(["jarutil", inp["command"]] + args)
        except ValueError:
            r = "raised"
        finally:
            L.jarutil.sign, sys.stdout = save, saved
        return r, list(calls)

    def spec(self, inp):
        cover("signed" if inp["outcome"] is None else "failed")
        return (OUTCOMES[inp["outcome"]], [("x.jar", "c.pem", "k.pem", "ALIAS", tuple("chain%d.pem" % k for k in range(inp["chain"])),
                                            inp["name"] if inp["digest"] else "SHA-256", "out.jar" if inp["output"] else None)])


# ---------------------------------------------------------------- real jars

class Keys:
    """a key of each type and a certificate for it"""
    made = None

    def __init__(self):
        from M2Crypto import EVP
        self.all = c = Certificates.get()
        ca = EVP.load_key(c.files["key RSA"])
        for t in ("RSA", "DSA", "EC"):
            c.cert(EVP.load_key(c.files["key " + t]), ca, "signer " + t, "authority", (("basicConstraints", "CA:FALSE"), ("extendedKeyUsage", "codeSigning")))

    def of(self, t):
        return self.all.files["signer " + t], self.all.files["key " + t]

    @classmethod
    def get(cls):
        if cls.made is None:
            cls.made = cls()
        return cls.made


# what OpenSSL makes no signature of
UNSIGNABLE = {"RSA": (), "DSA": ("MD5", "SHA-384", "SHA-512"), "EC": ("MD5",)}


def unfolded(data):
    """[(raw bytes of the section, {attribute: value})] of a manifest with any line ends"""
    out, raw, attrs = [], b"", []
    for line in data.splitlines(True):
        raw += line
        text = line.rstrip(b"\r\n")
        if not text:
            if attrs:
                out.append((raw, attrs))
            raw, attrs = b"", []
        elif text.startswith(b" "):
            attrs[-1] = (attrs[-1][0], attrs[-1][1] + text[1:])
        else:
            k, v = text.split(b": ", 1)
            attrs.append((k, v))
    if attrs:
        out.append((raw, attrs))
    return [(r, {k.decode(): v.decode() for k, v in a}) for r, a in out]


def b64(name, data):
    return base64.b64encode(hashlib.new(DIGESTS[name], data).digest()).decode("ascii")


def exempt(n):
    n = n.upper()
    if n.endswith("/") or n == MANIFEST:
        return True
    head, _, last = n.rpartition("/")
    return head == "META-INF" and (last.split(".")[-1] in ("SF", "RSA", "DSA", "EC") and "." in last or last.startswith("SIG-"))


POOL = ("a", "b/c.class", "META-INF/", "b/", "META-INF/x.txt", "META-INF/services/s", "META-INF/maven/g/a/pom.xml", "META-INF/versions/9/p/A.class", "META-INF/OTHER.SF", "META-INF/OTHER.RSA", "META-INF/KEY.DSA",
        "META-INF/KEY.SFX", "x/META-INF/MANIFEST.MF", "META-INF/sub/KEY.SF", "KEY.SF", "\u00e9t\u00e9/" + "x" * 90 + ".class", "n" * 66, "z/" + "\u4e2d" * 30, "META-INF/KEY2.EC", "Z", "a b",
        "META-INF/manifest.mf.bak", "c!d")


def history(seed):
    """(what the jar holds at first, steps)"""
    r = random.Random(seed)
    entries = {n: bytes(r.randrange(256) for _ in range(r.choice((0, 1, 9, 300)))) for n in r.sample(POOL, r.randrange(9))}
    sep = r.choice((b"\n", b"\r\n"))
    mf = [b"Manifest-Version: 1.0" + sep + (b"Main-Class: x.Y" + sep if r.random() < 0.3 else b"")]
    described = r.sample([n for n in entries if len(n) < 40 and n.isascii()] + ["gone", "Gone/y"], r.randrange(3))
    kept = {}
    for n in described:
        kept[n] = [("Sealed", "true"), ("Note", "v" * 80)][:r.randrange(3)]
        attrs = [("Name", n)] + kept[n]
        s = b""
        for k, v in attrs:
            line = ("%s: %s" % (k, v)).encode()
            while len(line) > 70:
                s += line[:70] + sep
                line = b" " + line[70:]
            s += line + sep
        mf.append(s)
    if r.random() < 0.3:
        d = r.choice(NAMES)
        for n in r.sample(sorted(x for x in entries if not exempt(x)), min(2, sum(not exempt(x) for x in entries))):
            if n not in described and len(n) < 60 and n.isascii():
                mf.append(("Name: %s" % n).encode() + sep + ("%s-Digest: %s" % (d, b64(d, entries[n]))).encode() + sep)
    steps = []
    for _ in range(r.choice((1, 1, 2, 3))):
        d = r.choice(NAMES + NAMES[1:] + (None,))
        steps.append({"alias": r.choice(("KEY", "KEY", "KEY2", "signer")), "type": r.choice(("RSA", "RSA", "DSA", "EC")), "digest": d,
                      "output": r.random() < 0.2, "change": r.choice((None, None, "add", "remove", "alter")), "which": r.random(), "how": r.choice(("sign", "command"))})
    return entries, sep.join(mf) + sep, kept, steps


@contract
class Histories(Contract):
    """jars signed up to three times, changed in between"""
    prop = "C19"
    name = "signing histories"
    functions = ("javatools.jarutil:sign", "javatools.jarutil:cli_sign_jar", "javatools.manifest:Manifest.add_jar_entries",
                 "javatools.manifest:SignatureManifest.digest_manifest", "javatools.manifest:SignatureManifest.get_signature", "javatools.jarutil:verify")
    symbolic = False
    bound = "jars of up to eight entries, signed up to three times by keys of the three types"
    cases_quick = 400
    cases_thorough = 2500

    def inputs(self, w):
        return (w.int("seed", 0, 2 ** 31),)

    def run(self, L, inp):
        entries, manifest, kept, steps = history(inp[0])
        keys = Keys.get()
        with tempfile.TemporaryDirectory() as d:
            jar = os.path.join(d, "x.jar")
            with zipfile.ZipFile(jar, "w") as z:
                items = list(entries.items())
                items.insert(len(items) // 2, (MANIFEST, manifest))
                for n, data in items:
                    z.writestr(n, data)
            for k, s in enumerate(steps):
                cert, key = keys.of(s["type"])
                before = self.content(jar)
                out = os.path.join(d, "out%d.jar" % k) if s["output"] else None
                if s["digest"] in UNSIGNABLE[s["type"]]:
                    try:
                        L.jarutil.sign(jar, cert, key, s["alias"], digest=s["digest"], output=out)
                    except Exception:
                        pass
                    else:
                        ensure(False, "there is no such signature")
                    ensure(self.content(jar) == before and not (out and os.path.exists(out)), "the jar is left alone")
                    continue
                if s["how"] == "sign":
                    L.jarutil.sign(jar, cert, key, s["alias"], digest=s["digest"], output=out)
                else:
                    args = (["-d", s["digest"]] if s["digest"] else []) + (["-o", out] if out else [])
                    ensure(L.jarutil.cli_sign_jar(args + [jar, cert, key, s["alias"]]) == 0, "it signs")
                if out:
                    ensure(self.content(jar) == before, "the jar itself is left alone")
                    jar = out
                self.check(L, s, before, self.content(jar), kept)
                ensure(L.jarutil.verify(keys.all.files["authority"], jar, s["alias"] + ".SF") is None, "the result verifies")
                if s["change"]:
                    self.change(s, jar)
        return "done"

    def content(self, jar):
        with zipfile.ZipFile(jar) as z:
            return [(i.filename, z.read(i)) for i in z.infolist()]

    def change(self, s, jar):
        items = self.content(jar)
        mine = [k for k, (n, _) in enumerate(items) if not exempt(n)]
        if s["change"] == "add" or not mine:
            items.append(("added%d" % int(s["which"] * 1000), b"new"))
        else:
            k = mine[int(s["which"] * len(mine))]
            items[k:k + 1] = [(items[k][0], items[k][1] + b"!")] if s["change"] == "alter" else []
        with zipfile.ZipFile(jar, "w") as z:
            for n, data in items:
                z.writestr(n, data)

    def check(self, L, s, before, after, kept):
        digest, alias = s["digest"] or "SHA-256", s["alias"]
        stem = "META-INF/" + alias + "."
        mine = (MANIFEST,) + tuple(stem + x for x in EXTENSIONS)
        ensure([x for x in after if x[0] not in mine] == [x for x in before if x[0] not in mine], "the other entries are the same, once")
        ensure(sorted(n for n, _ in after if n in mine) == sorted((MANIFEST, stem + "SF", stem + s["type"])), "one manifest, one signature of the name")
        have = dict(after)
        mf = unfolded(have[MANIFEST])
        sections = {a["Name"]: (raw, a) for raw, a in mf[1:]}
        ensure(len(sections) == len(mf) - 1, "one section per name")
        for n, data in after:
            if exempt(n):
                ensure(n not in sections or n in kept, "%s needs no digest" % n)
            else:
                ensure(n in sections and sections[n][1].get(digest + "-Digest") == b64(digest, data), "the digest of %s" % n)
        for n, attrs in kept.items():
            ensure(n in sections and all(sections[n][1].get(k) == v for k, v in attrs), "what the manifest said of %s" % n)
        sf = unfolded(have[stem + "SF"])
        ensure(sf[0][1].get(digest + "-Digest-Manifest") == b64(digest, have[MANIFEST]), "the digest of the manifest")
        ensure(sf[0][1].get(digest + "-Digest-Manifest-Main-Attributes") == b64(digest, mf[0][0]), "the digest of its main attributes")
        ensure({a["Name"]: a.get(digest + "-Digest") for _, a in sf[1:]} == {n: b64(digest, raw) for n, (raw, _) in sections.items()}, "the digests of its sections")

    def spec(self, inp):
        return "done"
