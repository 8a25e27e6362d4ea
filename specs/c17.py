"""C17: digest verification accepts an entry only if a recorded digest matches"""
import base64, hashlib, io, os, random, re, zipfile
from pv.api import *

MODULES = ("javatools", "javatools.change", "javatools.dirutils", "javatools.manifest")

DIGESTS = {"MD5": "md5", "SHA1": "sha1", "SHA-256": "sha256", "SHA-384": "sha384", "SHA-512": "sha512"}


# ---------------------------------------------------------------- what is exempt

def glob(name, pat):
    """fnmatch for the patterns in use: one star, at either end"""
    ensure(pat.count("*") == 1 and (pat[0] == "*" or pat[-1] == "*") and "?" not in pat and "[" not in pat, "a simple pattern")
    if pat[0] == "*":
        return bool(name.endswith(pat[1:]))
    return bool(name.startswith(pat[:-1]))


@contract
class Skips(Contract):
    prop = "C17"
    name = "exempt entries"
    functions = ("javatools.manifest:file_skips_verification", "javatools.manifest:file_matches_sigfile",
                 "javatools.manifest:file_matches_sigblock")
    summaries = {"fnmatch:fnmatch": glob}
    must_cover = ("manifest", "directory", "signature file", "block", "deeper", "other")
    cases_quick = 8000
    bound = "names of up to three components"

    def inputs(self, w):
        def part(nm):
            if w.sym:
                return w.free_of(w.str(nm), "/")
            r = random.Random(w.int(nm, 0, 2 ** 31))
            t = r.choice(("META-INF", "META-INF", "meta-inf", "Meta-Inf", "META-INFO", "META", "", "MANIFEST.MF", "manifest.mf", "x.SF",
                          "x.sf", "a.rsa", "A.DSA", "k.EC", "k.ec", "SIG-x", "sig-", "SIG", "x.SFX", ".SF", "SF", "x.RSA.txt",
                          "MANIFEST.MF.SF", "k.DSA\n", "x.SF\n", "ECx", "x.ECC", "SIG-x.class", "\u017fig-x", "[x].SF", "*.SF", "x.P7", "x.P7S", "x.CER", "x.KEY", "x.PGP", "x.MF", "x.XML", "INDEX.LIST"))
            return t if r.random() < 0.9 else t + r.choice("aSF./*").replace("/", "")
        parts = [part("part%d" % k) for k in range(w.choice("n", (1, 2, 3)))]
        return "/".join(parts) if not w.sym else self.join(parts)

    def join(self, parts):
        s = parts[0]
        for x in parts[1:]:
            s = s + "/" + x
        return s

    def run(self, L, inp):
        return bool(L.manifest.file_skips_verification(inp))

    def spec(self, inp):
        parts = inp.upper().split("/")
        last = parts[-1]
        if last == "":
            if len(parts) > 1:
                cover("directory")
                return True
            return False
        if len(parts) == 2 and parts[0] == "META-INF":
            if last == "MANIFEST.MF":
                cover("manifest")
                return True
            if last.endswith(".SF"):
                cover("signature file")
                return True
            if last.endswith(".RSA") or last.endswith(".DSA") or last.endswith(".EC") or last.startswith("SIG-"):
                cover("block")
                return True
        cover("deeper" if len(parts) > 2 else "other")
        return False


# ---------------------------------------------------------------- recorded digests

class Section:
    """the attributes of a section that record digests: names[j] + suffix has the value recorded(j)"""
    def __init__(self, names, recorded, primary=None, data=None, sep=None):
        self.names, self.recorded, self._primary, self.data, self.sep = names, recorded, primary, data, sep

    def keys_with_suffix(self, suffix):
        return self.names

    def get(self, key, default=None):
        return self.recorded(key)

    def __getitem__(self, key):
        return self.recorded(key)

    def primary(self):
        return self._primary

    def get_data(self, linesep=None):
        ensure(linesep == self.sep, "the section is written as the manifest is")
        return self.data


class Digest:
    """hashlib constructor of a java digest name"""
    def __init__(self, name):
        self.name = name


def get_digest(java_name, as_string=False):
    """proved as digest names"""
    return Digest(java_name)


def digest_of(data, algorithm):
    return abstract("digest", (data, algorithm.name), "str")


COMMON_SUMMARIES = {"javatools.manifest:_get_digest": get_digest, "javatools.manifest:b64_encoded_digest": digest_of}


class Zip:
    def __init__(self, names):
        self.names = names

    def namelist(self):
        return self.names

    def read(self, name):
        return abstract("content", (name,), "str")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def entry_section(name):
    """the section of that name"""
    n = abstract("digests", (name,), "int")
    assume(n >= 0)
    return Section(table(n, lambda j: abstract("digest name", (name, j), "str"), list),
                   lambda key: abstract("recorded", (name, key), "str"), name)


class Sections:
    """sub_sections of a manifest, looked up by name"""
    def get(self, name, default=None):
        return self[name] if abstract("has section", (name,), "bool") else default

    def __getitem__(self, name):
        return entry_section(name)

    def __contains__(self, name):
        return abstract("has section", (name,), "bool")


class Mani:
    def __init__(self):
        self.sub_sections = Sections()

    def create_section(self, name, overwrite=True):
        ensure(not overwrite, "the section on record is looked at")
        return entry_section(name)


@contract
class JarChecksums(Contract):
    prop = "C17"
    name = "jar against manifest"
    functions = ("javatools.manifest:Manifest.verify_jar_checksums",)
    split_inst = False
    summaries = dict(COMMON_SUMMARIES, **{
        "javatools.manifest:file_skips_verification": lambda name: abstract("exempt", (name,), "bool")})
    concrete = False
    must_cover = ("lenient", "strict")

    def inputs(self, w):
        return (w.seq("entry", lambda w, k: w.str("name")), w.choice("strict", (True, False)))

    def callee(self, L, inp):
        return {"zipfile:ZipFile": lambda *a, **k: Zip(inp[0])}

    def run(self, L, inp):
        return L.manifest.Manifest.verify_jar_checksums(Mani(), "x.jar", inp[1])

    def spec(self, inp):
        names, strict = inp
        cover("strict" if strict else "lenient")

        def failing(k):
            name = names[k]
            if abstract("exempt", (name,), "bool"):
                return ()
            s = entry_section(name)
            n = len(s.names)
            if n == 0:
                return (name,) if strict else ()
            content = abstract("content", (name,), "str")
            if exists(n, lambda j: digest_of(content, Digest(s.names[j])) == s.recorded(s.names[j] + "-Digest")):
                return ()
            return (name,)
        return flat(len(names), failing, list)


class Sig:
    """a signature file: its main attributes, and sections by name"""
    def __init__(self, names, main=True, attributes=True, failing=()):
        self.names = names
        self.main, self.attributes, self.failing = main, attributes, failing

    def keys_with_suffix(self, suffix):
        return self.names

    def get(self, key, default=None):
        return abstract("recorded", (key,), "str")

    __getitem__ = get

    def create_section(self, name, overwrite=True):
        ensure(not overwrite, "the section on record is looked at")
        return entry_section(name)

    sub_sections = Sections()

    def verify_manifest_main_checksum(self, manifest):
        return self.main

    def verify_manifest_main_attributes_checksum(self, manifest):
        return self.attributes

    def verify_manifest_entry_checksums(self, manifest, strict=True):
        ensure(strict, "every section must be verified")
        return self.failing


class Written:
    """a manifest, by what is written of it"""
    def __init__(self, linesep=None, subs=None):
        self.linesep, self.subs, self.sub_sections = linesep, subs, self

    def get_data(self, linesep=None):
        return "whole"

    def get_main_section(self, linesep=None):
        return "main"

    def values(self):
        return self.subs

    def items(self):
        return [(s.primary(), s) for s in self.subs]


class MainChecksum(Contract):
    prop = "C17"
    summaries = COMMON_SUMMARIES
    concrete = False
    must_cover = ("accepted", "refused")

    def inputs(self, w):
        return (w.seq("digest", lambda w, k: w.str("name")),)

    def forms(self, inp):
        found = self.found(inp)
        return {"found": lambda i, init: found.at(i)}

    def found(self, inp):
        names = inp[0]
        return Any("found", lambda j: digest_of(self.of, Digest(names[j])) == abstract("recorded", (names[j] + self.suffix,), "str"))

    def run(self, L, inp):
        return getattr(L.manifest.SignatureManifest, self.method)(Sig(inp[0]), Written("\n"))

    def spec(self, inp):
        if self.found(inp).holds(len(inp[0])):
            cover("accepted")
            return True
        cover("refused")
        return False


@contract
class WholeChecksum(MainChecksum):
    name = "whole-manifest digest"
    functions = ("javatools.manifest:SignatureManifest.verify_manifest_main_checksum",)
    method, suffix, of = "verify_manifest_main_checksum", "-Digest-Manifest", "whole"


@contract
class AttributesChecksum(MainChecksum):
    name = "main-attributes digest"
    functions = ("javatools.manifest:SignatureManifest.verify_manifest_main_attributes_checksum",)
    method, suffix, of = "verify_manifest_main_attributes_checksum", "-Digest-Manifest-Main-Attributes", "main"


@contract
class EntryChecksums(Contract):
    prop = "C17"
    name = "sections against signature file"
    functions = ("javatools.manifest:SignatureManifest.verify_manifest_entry_checksums",)
    split_inst = False
    summaries = COMMON_SUMMARIES
    concrete = False

    def inputs(self, w):
        return (w.seq("section", lambda w, k: w.str("name")), w.choice("strict", (True, False)), w.choice("sep", ("\r\n", None)))

    def section(self, names, k, sep):
        # a manifest has digests of its own, of the content and not of the section
        n = abstract("content digests", (names[k],), "int")
        assume(n >= 0)
        name = names[k]
        return Section(table(n, lambda j: abstract("content digest name", (name, j), "str"), list),
                       lambda key: abstract("content digest", (name, key), "str"), name,
                       abstract("data", (name,), "str"), sep or os.linesep)

    def run(self, L, inp):
        names, strict, sep = inp
        m = Written(sep, table(len(names), lambda k: self.section(names, k, sep)))
        return L.manifest.SignatureManifest.verify_manifest_entry_checksums(Sig(()), m, strict)

    def spec(self, inp):
        names, strict, sep = inp

        def failing(k):
            name = names[k]
            s = entry_section(name)
            n = len(s.names)
            if n == 0:
                return (name,) if strict else ()
            data = abstract("data", (name,), "str")
            if exists(n, lambda j: digest_of(data, Digest(s.names[j])) == s.recorded(s.names[j] + "-Digest")):
                return ()
            return (name,)
        return flat(len(names), failing, list)


@contract
class VerifyManifest(Contract):
    prop = "C17"
    name = "manifest against signature file"
    functions = ("javatools.manifest:SignatureManifest.verify_manifest",)
    must_cover = ("accepted", "sections", "refused")

    def inputs(self, w):
        return (w.bool("main"), w.bool("attributes"), w.seq("failing", lambda w, k: w.str("name"), kind=list))

    def run(self, L, inp):
        return L.manifest.SignatureManifest.verify_manifest(Sig((), *inp), Written("\n"))

    def post(self, inp, got):
        main, attributes, failing = inp
        ensure(got[0] == "ret", "there is a verdict")
        if main:
            cover("accepted")
            ensure_eq(list(got[1]), [], "the whole manifest matches")
        elif attributes:
            cover("sections")
            ensure_eq(got[1], failing, "the sections that fail")
        else:
            cover("refused")
            ensure(len(got[1]) > 0, "nothing matches")


class Keys:
    def __init__(self, keys):
        self._keys = keys

    def keys(self):
        return self._keys

    def __iter__(self):
        return iter(self._keys)


@contract
class Suffix(Contract):
    prop = "C17"
    name = "keys_with_suffix"
    functions = ("javatools.manifest:ManifestSection.keys_with_suffix",)

    def inputs(self, w):
        def gen(r):
            return r.choice(("", "a", "MD5", "SHA-256", "test", "Digest", "-", "SHA1")) + \
                r.choice(("-Digest", "-Digest-Manifest", "-Digest-Manifest-Main-Attributes", "", "-digest"))
        return (w.seq("key", lambda w, k: w.str("name", gen=gen)),
                w.choice("suffix", ("-Digest", "-Digest-Manifest", "-Digest-Manifest-Main-Attributes")))

    def run(self, L, inp):
        return L.manifest.ManifestSection.keys_with_suffix(Keys(inp[0]), inp[1])

    def spec(self, inp):
        keys, suffix = inp

        def stem(k):
            x = keys[k]
            return (x[:len(x) - len(suffix)],) if x.endswith(suffix) else ()
        return flat(len(keys), stem, list)


# ---------------------------------------------------------------- against real digests

@contract
class Names(Contract):
    prop = "C17"
    name = "digest names"
    functions = ("javatools.manifest:_get_digest", "javatools.manifest:b64_encoded_digest", "javatools.manifest:_b64encode_to_str")
    symbolic = False
    bound = "the supported names, random data"
    must_cover = ("supported", "unsupported")

    def inputs(self, w):
        return (w.choice("name", sorted(DIGESTS) + ["MD2", "SHA-224", "sha-256", "", "MD5x"]), w.bytes("data"))

    def run(self, L, inp):
        return L.manifest.b64_encoded_digest(inp[1], L.manifest._get_digest(inp[0])), L.manifest._get_digest(inp[0], as_string=True)

    def spec(self, inp):
        name, data = inp
        if name in DIGESTS:
            cover("supported")
            return base64.b64encode(getattr(hashlib, DIGESTS[name])(data).digest()).decode("ascii"), DIGESTS[name]
        cover("unsupported")
        raise Raises("UnsupportedDigest")


def real_digest(name, data):
    return base64.b64encode(getattr(hashlib, DIGESTS[name])(data).digest()).decode("ascii")


def exempt(name):
    n = name.upper()
    if n.endswith("/") or n == "META-INF/MANIFEST.MF":
        return True
    m = re.match(r"META-INF/([^/]+)\Z", n, re.S)
    return bool(m and (re.search(r"\.(SF|RSA|DSA|EC)\Z", m.group(1)) or m.group(1).startswith("SIG-")))


def plain(sep, pairs):
    """the data of a section"""
    out = ""
    for k, v in pairs:
        t = "%s: %s" % (k, v)
        out += sep.join([t[:70]] + [" " + t[j:j + 69] for j in range(70, len(t), 69)]) + sep
    return (out + sep).encode("utf-8")


@contract
class Tampered(Contract):
    """real manifests, signature files and jars, some of it changed, against an independent verifier"""
    prop = "C17"
    name = "jars, manifests and signature files"
    functions = ("javatools.manifest:Manifest.verify_jar_checksums", "javatools.manifest:SignatureManifest.verify_manifest",
                 "javatools.manifest:SignatureManifest.verify_manifest_entry_checksums")
    symbolic = False
    bound = "random jars of up to six entries"
    must_cover = ("jar fails", "jar passes", "manifest fails", "manifest passes", "second chance", "unsupported")
    cases_quick = 700
    cases_thorough = 8000

    def inputs(self, w):
        return (w.int("seed", 0, 2 ** 31),)

    def make(self, seed):
        r = random.Random(seed)
        names = r.sample(["a", "b/c.class", "META-INF/x.SF", "META-INF/sub/x.SF", "META-INF/SIG-1", "META-INF/x.txt", "d/", "x.RSA",
                          "META-INF/MANIFEST.MF", "meta-inf/k.rsa", "META-INF/MANIFEST.MF.bak"], r.randrange(1, 7))
        entries = [(n, b"" if n.endswith("/") else bytes(r.randrange(256) for _ in range(r.randrange(20)))) for n in names]
        tamper = r.choice((0.0, 0.0, 0.1, 0.3))
        odd = r.random() < 0.1

        def algs():
            return r.sample(sorted(DIGESTS), r.choice((0, 1, 1, 1, 2))) + (["SHA-224"] if odd and r.random() < 0.3 else [])

        def value(a, data):
            if a not in DIGESTS:
                return "x"
            return real_digest(a, data) if r.random() >= tamper else r.choice(("", "x", real_digest(a, data + b"x"), real_digest("MD5", data),
                                                                               real_digest(a, data)[:-4], real_digest(a, data).swapcase(),
                                                                               real_digest(a, data) + "x", real_digest(a, data).strip("=")))
        mf = [[("Manifest-Version", "1.0")] + ([("Created-By", "me")] if r.random() < 0.5 else [])]
        for n, d in entries:
            if exempt(n) and r.random() < 0.8 or r.random() < 0.1:
                continue
            mf.append([("Name", n)] + [(a + "-Digest", value(a, d)) for a in algs()])
        sep = r.choice(("\n", "\r\n"))
        mf[1:] = sorted(mf[1:], key=lambda s: plain(sep, s))
        whole = b"".join(plain(sep, s) for s in mf)
        sf = [[("Signature-Version", "1.0")]]
        p = r.choice((0.0, 0.2, 1.0))
        broken = tamper
        for a in algs():
            tamper = p or broken
            sf[0].append((a + "-Digest-Manifest", value(a, whole)))
            tamper = broken
            if r.random() < 0.8:
                sf[0].append((a + "-Digest-Manifest-Main-Attributes", value(a, plain(sep, mf[0]))))
        for s in mf[1:]:
            if r.random() < 0.95:
                sf.append([("Name", s[0][1])] + [(a + "-Digest", value(a, plain(sep, s))) for a in (algs() or ["SHA-256"])])
        return entries, mf, sf, sep, r.random() < 0.7, r.random() < 0.3

    def run(self, L, inp):
        entries, mf, sf, sep, strict, built = self.make(inp[0])
        M = L.manifest
        out = []
        for what in ("jar", "manifest", "sections"):
            m = M.Manifest()
            m.parse(b"".join(plain(sep, s) for s in mf))
            if built and sep == os.linesep:
                m.linesep = None
            s = M.SignatureManifest()
            s.parse(b"".join(plain(sep, x) for x in sf))
            try:
                if what == "jar":
                    f = io.BytesIO()
                    with zipfile.ZipFile(f, "w") as z:
                        for n, d in entries:
                            z.writestr(n, d)
                    out.append(m.verify_jar_checksums(f, strict))
                elif what == "manifest":
                    out.append(s.verify_manifest(m))
                else:
                    out.append(sorted(s.verify_manifest_entry_checksums(m, strict)))
            except M.UnsupportedDigest:
                out.append("unsupported")
        return out

    def post(self, inp, got):
        entries, mf, sf, sep, strict, built = self.make(inp[0])
        ensure(got[0] == "ret", "there is a verdict")
        jar, manifest, sections = got[1]
        unknown = any(k.startswith("SHA-224") for s in mf + sf for k, v in s)
        # a digest that is not supported may be refused
        if unknown:
            cover("unsupported")

        def matches(attributes, suffix, data):
            return [real_digest(k[:-len(suffix)], data) == v for k, v in attributes
                    if k.endswith(suffix) and k[:-len(suffix)] in DIGESTS]

        def known(attributes, suffix):
            return [k for k, v in attributes if k.endswith(suffix)]
        byname = {s[0][1]: s for s in mf[1:]}
        want = []
        for n, d in entries:
            if exempt(n):
                continue
            s = byname.get(n, [])
            if known(s, "-Digest"):
                if not any(matches(s, "-Digest", d)):
                    want.append(n)
            elif strict:
                want.append(n)
        cover("jar fails" if want else "jar passes")
        ensure(jar == want or unknown and jar == "unsupported", "entries whose digests do not match: %r, not %r" % (want, jar))
        sfname = {s[0][1]: s for s in sf[1:]}
        bad = {}
        for how in (True, False):
            bad[how] = []
            for s in mf[1:]:
                t = sfname.get(s[0][1], [])
                if known(t, "-Digest"):
                    if not any(matches(t, "-Digest", plain(sep, s))):
                        bad[how].append(s[0][1])
                elif how:
                    bad[how].append(s[0][1])
        ensure(sections == sorted(bad[strict]) or unknown and sections == "unsupported",
               "sections whose digests do not match: %r, not %r" % (bad[strict], sections))
        whole = any(matches(sf[0], "-Digest-Manifest", b"".join(plain(sep, s) for s in mf)))
        ok = whole
        if not whole:
            ok = any(matches(sf[0], "-Digest-Manifest-Main-Attributes", plain(sep, mf[0]))) and not bad[True]
            if ok:
                cover("second chance")
        cover("manifest passes" if ok else "manifest fails")
        ensure(unknown and manifest == "unsupported" or manifest != "unsupported" and (len(manifest) == 0) == ok,
               "the manifest matches: %r, not %r" % (ok, manifest))
