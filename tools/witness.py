"""Checks decided by compiling: the compiler accepts or rejects programs that use the crate, and
the driver (engine/src/api.rs) reports the interface the compiler sees. Nothing built is run."""
import json, os, re, shutil, subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build")
REPO = re.search(r'langtag = \{ path = "([^"]+)"', open(os.path.join(V, "harness", "Cargo.toml")).read()).group(1)


def cargo(args, d, target, env=None, wrapper=None, flags=""):
    e = {k: v for k, v in os.environ.items() if not k.startswith("LT_") and k not in ("RUSTC", "RUSTC_WORKSPACE_WRAPPER", "RUSTC_WRAPPER")}
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(B, target), CARGO_INCREMENTAL="0", RUSTFLAGS=flags)
    if wrapper:
        e["RUSTC_WRAPPER"] = wrapper
    e.update(env or {})
    return subprocess.run(["cargo", "+nightly"] + args, cwd=d, env=e, capture_output=True, text=True)


def crate(name, source, features, default=False):
    d = os.path.join(B, "w", name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    open(os.path.join(d, "src", "lib.rs"), "w").write(source)
    open(os.path.join(d, "Cargo.toml"), "w").write(
        '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2024"\n\n[dependencies]\nlangtag = { path = "%s", default-features = %s, features = %s }\n\n[workspace]\n'
        % (name, REPO, "true" if default else "false", json.dumps(features))
    )
    lock = open(os.path.join(V, "harness", "Cargo.lock")).read()
    # our own entry: the lock file only pins the versions that are installed
    lock = re.sub(r'\[\[package\]\]\nname = "lt_harness"\nversion = "0.0.0"\ndependencies = \[[^\]]*\]\n\n?', "", lock)
    open(os.path.join(d, "Cargo.lock"), "w").write(lock)
    return d


def messages(r):
    out = []
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-message":
                out.append((m["target"]["name"], m["message"]))
    return out


def lines_of(span, file, acc):
    if span["file_name"].endswith(file):
        acc.add(span["line_start"])
    if span.get("expansion"):
        lines_of(span["expansion"]["span"], file, acc)


GOOD = """fr FR fr-FR fr-Latn fr-Latn-FR es-419 abcd abcde abcdefgh AbCdEfGh zh-cmn zh-cmn-Hant-HK zh-min-nan
zh-yue-abc-def sl-nedis de-1996 de-CH-1996 sl-rozaj-biske-1994 de-a1b2c fr-a-ab en-a-bbb-x-a-ccc fr-0-ab fr-9-abcdefgh
de-a-ab-b-cd-a-ef fr-x-a fr-x-abcdefgh fr-x-1-2-3 x-a x-whatever X-A x-1-12345678 i-klingon I-KLINGON i-ami i-bnn i-default
i-enochian i-hak i-lux i-mingo i-navajo i-pwn i-tao i-tay i-tsu en-GB-oed EN-gb-OED sgn-BE-FR sgn-be-nl sgn-CH-DE art-lojban
cel-gaulish no-bok no-nyn zh-guoyu zh-hakka zh-min zh-xiang zh-Guoy-CN en-Latn-GB-boont-r-extended-sequence-x-private
az-Arab-x-AZE-derbend aa-bbb-Cccc-DD-12345-1abc-z-12-345-y-abc-x-w""".split()
BAD = ["", " ", "-", "f", "x", "x-", "X-", "1", "12", "fr-", "-fr", "fr--FR", "fr FR", "fr_FR", " fr", "fr ", "fr\\n", "fr\\0", "f1",
       "abcdefghi", "fr-F", "fr-Latn-F", "fr-abc-def-ghi-jkl", "abcd-efg", "ab-ab-abc", "ab-123-abc", "a-value", "a-DE", "de-a", "de-a-b",
       "de-a-x-b", "de-a-abcdefghi", "de-1", "de-12", "de-abcdefghi", "de-x", "de-x-", "de-x-abcdefghi", "x-abcdefghi", "x-a-", "x--a",
       "i-notexist", "i-am", "i-amii", "i-klingon-a", "i-ami-x-a", "en-GB-oe", "en-GB-oed-x", "sgn-BE-F", "sgn-BE-FR-1", "zh-x-\\u{dc}\\u{144}",
       "f\\u{e9}", "\\u{17f}r", "fr-\\u{212a}", "fr\\u{2010}FR", "\\u{ff46}r", "fr-Latn-FR-", "en-a-bbb-", "de-419-DE", "a1-Hant-ZH", "ab-abcde-abc"]


def c21(main, tier):
    """Constants that must compile, and constants each of which must be an error of its own."""
    bad, none = [], []
    head = "#![allow(dead_code)]\nuse langtag::{LangTag, langtag};\n"
    src = head + "".join('const C%d: &LangTag = langtag!("%s");\n' % (i, t) for i, t in enumerate(GOOD))
    src += 'static S: &LangTag = langtag!("fr-FR");\nconst fn f() -> &\'static LangTag { langtag!("fr") }\npub fn g() -> &\'static LangTag { langtag!("fr-CH") }\n'
    src += "const P: [(); C0.as_bytes().len()] = [(); %d];\n" % len(GOOD[0])
    for m in ("crate", "absolute"):
        src += "mod m_%s { pub const C: &::langtag::LangTag = ::langtag::langtag!(\"%s\"); }\n" % (m, "fr-Latn")
    d = crate("c21_good", src, ["std"], True)
    r = cargo(["check", "--offline", "--message-format=json"], d, "wt")
    ms = [(t, m) for t, m in messages(r) if m["level"] == "error"]
    if any(t == "langtag" for t, m in ms) or (r.returncode and not ms):
        return [], ["the crate does not compile: " + r.stderr[-2000:]], {}
    lines = src.split("\n")
    for t, m in ms:
        at = set()
        for s in m["spans"]:
            lines_of(s, "src/lib.rs", at)
        at = [n for n in at if n <= len(lines) and "langtag!(" in lines[n - 1]]
        if not at and not m["spans"]:
            continue
        what = lines[at[0] - 1].strip() if at else m["message"]
        bad.append({"kind": "compile-fail", "what": "well-formed literal rejected: %s (%s)" % (what, m["message"]), "function": "macro langtag!", "at": "src/lib.rs", "program": what})
    src = head + "".join('const C%d: &LangTag = langtag!("%s");\n' % (i, t) for i, t in enumerate(BAD))
    d = crate("c21_bad", src, ["std"], True)
    r = cargo(["check", "--offline", "--message-format=json"], d, "wt")
    hit = set()
    for t, m in messages(r):
        if m["level"] == "error":
            for s in m["spans"]:
                lines_of(s, "src/lib.rs", hit)
    for i, t in enumerate(BAD):
        if i + 3 not in hit:
            bad.append({"kind": "compile-pass", "what": 'ill-formed literal compiles: langtag!("%s")' % t, "function": "macro langtag!", "at": "src/lib.rs", "program": lines and 'const C: &LangTag = langtag!("%s");' % t})
    n = len(GOOD) + len(BAD) + 6
    return bad, none, {"obligations": n, "discharged": n - len(bad), "witness_programs": n}


def combos():
    r = subprocess.run(["cargo", "+nightly", "metadata", "--offline", "--no-deps", "--format-version", "1"], cwd=crate("meta", "", []), capture_output=True, text=True)
    m = subprocess.run(["cargo", "+nightly", "metadata", "--offline", "--no-deps", "--format-version", "1", "--manifest-path", os.path.join(REPO, "Cargo.toml")], capture_output=True, text=True)
    fs = json.loads(m.stdout)["packages"][0]["features"]
    names = sorted(f for f in fs if f != "default")
    out = []
    for n in range(1 << len(names)):
        out.append([f for i, f in enumerate(names) if n >> i & 1])
    return fs, out


def interface(features):
    """Compiles the crate with these features under the driver; (compiled, items, externs)."""
    name = "api-" + ("-".join(features) or "none")
    out = os.path.join(B, "w", "out", name)
    target = os.path.join("w", "t-" + name)
    for p in (out, os.path.join(B, target)):
        shutil.rmtree(p, ignore_errors=True)
    os.makedirs(out)
    d = crate(name.replace("-", "_"), "", features)
    r = cargo(["check", "--offline", "--message-format=json"], d, target, {"LT_API": out}, os.path.join(B, "lt-engine"), "-Awarnings")
    shutil.rmtree(os.path.join(B, target), ignore_errors=True)
    errs = [m["message"] + (" at %s:%d" % (m["spans"][0]["file_name"], m["spans"][0]["line_start"]) if m["spans"] else "") for t, m in messages(r) if m["level"] == "error"]
    if r.returncode:
        return errs or [r.stderr[-1500:]], [], {}
    # the same items are printed as core:: or std:: according to whether std is linked
    api = json.loads(re.sub(r"\b(core|alloc)::", "std::", open(os.path.join(out, "api.json")).read()))
    ext, own = {}, None
    for f in os.listdir(out):
        if f.startswith("externs-"):
            e = json.load(open(os.path.join(out, f)))
            ext[f.rsplit("-", 1)[1][:-5]] = e
            if e["crate"] == "langtag":
                own = e
    return None, api, [own] + [ext[h] for h in own["loads"] if h in ext and not ext[h]["proc_macro"]]


def effects(features):
    """What every public function may reach, with these features; (compiled, functions, types)."""
    name = "fx-" + ("-".join(features) or "none")
    out = os.path.join(B, "w", "out", name)
    target = os.path.join("w", "t-" + name)
    for p in (out, os.path.join(B, target)):
        shutil.rmtree(p, ignore_errors=True)
    os.makedirs(out)
    d = crate(name.replace("-", "_"), "", features)
    r = cargo(["check", "--offline", "--message-format=json"], d, target, {"LT_EFFECTS": out}, os.path.join(B, "lt-engine"), "-Awarnings -Zalways-encode-mir")
    shutil.rmtree(os.path.join(B, target), ignore_errors=True)
    if r.returncode or not os.path.exists(os.path.join(out, "effects-langtag.json")):
        return [m["message"] for t, m in messages(r) if m["level"] == "error"] or [r.stderr[-1500:]], [], []
    e = json.load(open(os.path.join(out, "effects-langtag.json")))
    return None, e["functions"], e["types"]


def key(i):
    return (i["kind"], i.get("self", ""), i.get("trait", ""), i["path"] if not i.get("self") else i.get("name", i["path"]))


OWNED = re.compile(r"\b(String|Vec|Box|Rc|Arc|ToOwned|FromStr|Buffer|\w+Buf)\b|\b(std|alloc)::(string|vec|boxed|borrow)\b")


def text(i):
    return " ".join([i["kind"], i["path"], i.get("self", ""), i.get("trait", ""), i.get("output", ""), i.get("type", "")] + i.get("inputs", []) + i.get("where", []) + [f["type"] for f in i.get("fields", [])])


def show(i):
    return ("%s of <%s as %s>" % (i.get("name", "implementation"), i["self"], i["trait"])) if i.get("trait") else i["path"]


def c19(main, tier):
    """Every feature set compiles; without `std`, nothing but owned types disappears and nothing
    names the standard library."""
    main.build_engine()
    bad, none = [], []
    fs, sets = combos()
    full = max(sets, key=len)
    err, base, _ = interface(full)
    if err:
        return [], ["the crate does not compile with all features: %s" % err[0]], {}
    n = stds = 0
    kf = {k["entries"]: k for k in main.known() if k.get("property") == "C19" and k.get("status") == "open"}
    lines = []
    texts = {i["self"] for i in base if i["kind"] == "Impl" and i["trait"].split("<")[0].endswith("borrow::ToOwned")}
    strs = {i["path"]: i for i in base if i["kind"] == "Struct" and [f["type"] for f in i["fields"]] == ["str"]}
    for p, i in strs.items():
        n += 1
        if p not in texts:
            bad.append({"kind": "owned-type", "what": "no owned form of %s with features %s" % (p, full), "function": p, "at": i["at"]})
    for f in sets:
        if f == full:
            continue
        err, api, ext = interface(f)
        n += 1
        if err:
            bad.append({"kind": "compile", "what": "does not compile with features [%s]: %s" % (", ".join(f), err[0]), "function": "crate", "at": "Cargo.toml"})
            continue
        have = {key(i) for i in api}
        for i in base:
            n += 1
            if key(i) in have:
                continue
            t = text(i)
            if "std" not in f and OWNED.search(t):
                continue
            if "serde" not in f and "serde" in t:
                continue
            bad.append({"kind": "missing", "what": "missing with features [%s]: %s" % (", ".join(f), show(i)), "function": i["path"], "at": i["at"]})
        if "std" in f:
            miss = {p for p in strs} - {i["self"] for i in api if i["kind"] == "Impl" and i["trait"].split("<")[0].endswith("borrow::ToOwned")}
            for p in sorted(miss):
                bad.append({"kind": "owned-type", "what": "no owned form of %s with features [%s]" % (p, ", ".join(f)), "function": p, "at": strs[p]["at"]})
            continue
        for i in api:
            n += 1
            if i["kind"] in ("Struct", "TyAlias", "Fn", "AssocFn") and re.search(r"\b(string::String|vec::Vec|boxed::Box)\b", text(i)):
                bad.append({"kind": "owned-type", "what": "owned text without std: %s" % show(i), "function": i["path"], "at": i["at"]})
        for e in ext:
            n += 1
            c = e["crate"]
            for x, at in e["externs"]:
                if x != "std":
                    continue
                k = next((k for r, k in kf.items() if c != "langtag" and re.fullmatch(r, c)), None)
                if k:
                    l = "KNOWN-FINDING: property=C19 %s" % k["what"]
                    if l not in lines:
                        lines.append(l)
                else:
                    bad.append({"kind": "std", "what": "crate %s depends on the standard library with features [%s]" % (c, ", ".join(f)), "function": "crate " + c, "at": at})
    for l in lines:
        print(l)
    return bad, none, {"obligations": n, "discharged": n - len(bad), "feature_sets": [",".join(f) for f in sets], "public_items": len(base), "text_types": len(strs), "rule": C19_RULE}


C19_RULE = (
    "the crate is compiled once per feature set under the driver; an item of the full interface may be missing from a "
    "feature set only if its type mentions an owned type (std off) or serde (serde off); without std no item mentions owned "
    "text and neither the crate nor a dependency it is compiled against links std"
)


# -- C24, C25: what may be reached through the call graph --------------------------------------


def all_effects(main):
    """The effects with every feature set: {features: (functions, types)}, what does not compile."""
    from concurrent.futures import ThreadPoolExecutor

    main.build_engine()
    _, sets = combos()
    with ThreadPoolExecutor(4) as ex:
        r = list(ex.map(effects, sets))
    none = ["does not compile with features [%s]: %s" % (", ".join(f), e[0]) for f, (e, _, _) in zip(sets, r) if e]
    return {",".join(f) or "none": (fs, ts) for f, (e, fs, ts) in zip(sets, r) if not e}, none


def named(f):
    return "<%s as %s>::%s" % (f["self"], f["trait"], f["fn"].rsplit("::", 1)[1]) if f["trait"] and not f["trait"].startswith("<") else f["fn"]


def reached(main, effect, exempt):
    sets, none = all_effects(main)
    bad, seen = [], set()
    n = sites = open_ = instances = 0
    for fs, (fns, _) in sets.items():
        for f in fns:
            sites += f["sites"]
            open_ += f["open"]
            instances += f["reached"]
            if exempt(f):
                continue
            n += 1
            for e in f["found"]:
                if e["effect"] == effect and (f["fn"], e["what"]) not in seen:
                    seen.add((f["fn"], e["what"]))
                    bad.append({"kind": effect.lower(), "what": "%s %s (features %s)" % (named(f), e["what"], fs), "function": f["fn"], "at": f["at"], "call_path": e["path"]})
    cov = {"obligations": n, "discharged": n - len(bad), "feature_sets": sorted(sets), "call_sites": sites, "instances_walked": instances, "calls_left_to_the_caller": open_}
    floor = {"serde,std": 1500, "std": 1400, "serde": 500, "none": 400}
    for k, v in floor.items():
        if k in sets and len(sets[k][0]) < v:
            none.append("only %d public functions with features %s" % (len(sets[k][0]), k))
    return sets, bad, none, cov


ALLOC_RULE = (
    "from every public function whose result owns no text, or which is given owned text, no path through the call "
    "graph (generic code with the caller's types left open, closures, function pointers, vtables, drops) reaches the allocator"
)
STATE_RULE = (
    "no path through the call graph from any public function reaches a static that can change, thread-local data, atomics or "
    "volatile accesses, assembly, foreign functions, or a function of std that is not given as MIR; every public type is Send "
    "and Sync and has no interior mutability"
)


def c24(main, tier):
    _, bad, none, cov = reached(main, "Alloc", lambda f: f["gives"] and not f["takes"])
    cov["rule"] = ALLOC_RULE
    return bad, none, cov


def c25(main, tier):
    sets, bad, none, cov = reached(main, "State", lambda f: False)
    seen = set()
    for fs, (_, types) in sets.items():
        for t in types:
            cov["obligations"] += 3
            for k, w in (("send", "is not Send"), ("sync", "is not Sync"), ("fixed", "can change behind a shared reference")):
                if t[k]:
                    cov["discharged"] += 1
                elif (t["type"], k) not in seen:
                    seen.add((t["type"], k))
                    bad.append({"kind": "state", "what": "%s %s (features %s)" % (t["type"], w, fs), "function": t["type"], "at": t["at"]})
    cov["rule"] = STATE_RULE
    cov["types"] = {fs: len(ts) for fs, (_, ts) in sets.items()}
    return bad, none, cov


# -- C26: operations a trait derives from others ------------------------------------------------

REQUIRED = {
    "std::iter::Iterator": ["next"], "std::iter::DoubleEndedIterator": ["next_back"], "std::cmp::PartialEq": ["eq"],
    "std::cmp::PartialOrd": ["partial_cmp"], "std::cmp::Ord": ["cmp"], "std::hash::Hash": ["hash"], "std::clone::Clone": ["clone"],
}
COMPARED = {
    "std::iter::Iterator": ["nth", "last", "fold", "for_each", "size_hint", "count", "find", "any", "all"],
    "std::iter::DoubleEndedIterator": ["nth_back", "rfold", "rfind"],
    "std::cmp::PartialEq": ["ne"],
    "std::cmp::PartialOrd": ["lt", "le", "gt", "ge"],
    "std::clone::Clone": ["clone_from"],
}
DERIVED_RULE = (
    "a method that a trait of the standard library provides is either the library's, written in terms of the required methods "
    "(read off the implementations the compiler sees), or the crate's own, and then the abstract interpreter shows on every input "
    "that it gives what the required methods give"
)


def c26(main, tier):
    err, api, _ = interface(["serde", "std"])
    if err:
        main.die("the crate does not compile: %s" % err[0])
    none, own, impls = [], [], 0
    for i in api:
        t = re.sub(r"<.*", "", i.get("trait", ""))
        if t not in REQUIRED:
            continue
        if i["kind"] == "Impl":
            impls += 1
            continue
        if i["kind"] != "AssocFn" or i["name"] in REQUIRED[t]:
            continue
        own.append(show(i))
        rhs = re.search(r"<(.*)>$", i["trait"])
        if i["name"] not in COMPARED.get(t, []) or (rhs and rhs[1] != i["self"]):
            none.append("%s at %s is the crate's own and not compared" % (show(i), i["at"]))
    return [], none, {"obligations": impls, "discharged": impls, "implementations": impls, "methods_of_the_crates_own": own}


# -- C18: what safe code can do ---------------------------------------------------------------

ITERS = {"ExtensionIter": "Extension", "ExtensionsIter": "Extensions", "LanguageExtensionIter": "LanguageExtension", "PrivateUseIter": "PrivateUse", "VariantsIter": "Variants"}
RAW = r"(?:str|\[u8\]|u8|char|std::string::String|std::vec::Vec<u8>|std::boxed::Box<str>)"
MUTABLE = re.compile(r"(?:&(?:'\w+ )?mut|\*mut) ([\[\]\w:]+)")
C18_RULE = (
    "on the public interface the compiler reports: no field that safe code can set holds raw text, no safe function returns or "
    "lends a mutable reference to the text of a value; and every safe function that hands out or changes a value is called, by a "
    "generated entry point, on every input at once, and the value proved valid by the abstract interpreter"
)


def last(p):
    return re.sub(r"<.*", "", p).split("::")[-1]


class Gen:
    """Entry points of C18: source lines, each with the function it covers."""

    def __init__(self, api):
        self.api = api
        # errors carry the refused input, which is not valid by nature
        errors = {last(i["self"]) for i in api if i["kind"] == "Impl" and i["trait"].split("<")[0].endswith("error::Error")}
        self.types = {last(i["path"]): i for i in api if i["kind"] in ("Struct", "Enum")}
        self.guarded = {n for n, i in self.types.items() if n not in errors and not n.startswith("Invalid") and n != "Kind"}
        self.re = re.compile(r"(?<![\w:])(?:\w+::)*(%s)\b(?!::)" % "|".join(sorted(self.guarded, key=len, reverse=True)))

    def mentions(self, t):
        return bool(self.re.search(re.sub(r"\b\w*Invalid\w*(<[^<>]*(<[^<>]*>)?[^<>]*>)?", "", t)))

    def rust(self, t):
        t = re.sub(r"&'\w+ ", "&", t)
        t = re.sub(r"<'\w+>", "<'_>", t)
        t = re.sub(r"'(?!_|static)\w+", "'_", t)
        return re.sub(r"(?<![\w:])((?:\w+::)*)(\w+)\b(?!::)", lambda m: "langtag::" + m[2] if m[2] in self.types and (m[1] + m[2]) == self.types[m[2]]["path"] else m[0], t)

    def arg(self, t, k, where, choice):
        """Parameters, statements and expression giving an arbitrary valid value of type t; after: statements after the call."""
        v = "a%d" % k
        t = re.sub(r"&'\w+ ", "&", t)
        raw = self.rust(t)
        base = t.lstrip("&").replace("mut ", "")
        b = last(base)
        ref = t[: len(t) - len(t.lstrip("&"))] + ("mut " if t.startswith("&mut ") else "")
        if ref not in ("", "&", "&mut "):
            return None
        if b in ITERS and b in self.guarded:
            both = "if nondet() { %s.next(); } else { %s.next_back(); }" % (v, v) if b == "VariantsIter" else "%s.next();" % v
            return ["p%d: &langtag::%s" % (k, ITERS[b])], "let mut %s = p%d.iter(); while nondet() { %s } " % (v, k, both), ref + v, "%s.valid();" % v if ref == "&mut " else ""
        if b == "TypedLangTag":
            return ["p%d: &langtag::LangTag" % k], "let mut %s = p%d.as_typed(); " % (v, k), ref + v, "%s.valid();" % v if ref == "&mut " else ""
        if b == "GrandfatheredLangTag":
            return [], "let mut %s: langtag::GrandfatheredLangTag = nondet_variant(); " % v, ref + v, "%s.valid();" % v if ref == "&mut " else ""
        if b in self.guarded:
            if ref == "&mut ":
                if [f["type"] for f in self.types[b]["fields"]] == ["str"]:
                    return None
                return ["mut %s: langtag::%s" % (v, b)], "", ref + v, "%s.valid();" % v
            return ["%s: %s" % (v, raw)], "", v, ""
        if t in ("&str", "&[u8]", "u8", "std::string::String", "std::vec::Vec<u8>"):
            pre = 'assume(in_lang(%s%s, "Utf8")); ' % ("" if t[0] == "&" else "&", v) if "[u8]" in t or "Vec" in t else ""
            return ["%s: %s" % (v, t)], pre, v, ""
        if t in ("bool", "usize", "char"):
            return {"bool": ([], "", "nondet()", ""), "usize": (["%s: &str" % v], "", v + ".len()", ""), "char": (["%s: u8" % v], "", v + " as char", "")}[t]
        if re.fullmatch(r"[A-Z]\w*", t) or t.startswith("impl "):
            w = " ".join(where)
            if "Deserializer" in w:
                return ["%s: &'static str" % v, "b%d: u8" % k], "let %s = crate::c20::%s; " % (v, ("Leaf(%s, b%d)" if choice % 2 else "Outer(crate::c20::Leaf(%s, b%d), false)") % (v, k)), v, ""
            c = ("&str", "&[u8]", "std::string::String", "std::vec::Vec<u8>")[choice]
            return self.arg(c, k, where, 0)
        if re.fullmatch(r"&[A-Z]\w*", t):
            if choice < 2:
                return self.arg(("&str", "&[u8]")[choice], k, where, 0)
            a = self.arg(("std::string::String", "std::vec::Vec<u8>")[choice - 2], k, where, 0)
            return a[0], a[1], "&" + a[2], ""
        return None

    def entries(self):
        """(function, text of one entry point or None)"""
        for i in self.api:
            if i["kind"] not in ("Fn", "AssocFn") or i["unsafe"]:
                continue
            res = i["result"] or i["output"]
            mut = any(re.match(r"&('\w+ )?mut ", x) and self.mentions(x) for x in i["inputs"])
            if not (self.mentions(res) or mut):
                continue
            generic = [g for g in i.get("generics", []) if any(re.search(r"\b%s\b" % re.escape(g), x) for x in i["inputs"]) or g.startswith("impl ")]
            out = []
            for c in range(4 if generic else 1):
                ps, pre, ex, post = [], "", [], ""
                for k, t in enumerate(i["inputs"]):
                    a = self.arg(t, k, i["where"], c)
                    if a is None:
                        break
                    ps += a[0]
                    pre += a[1]
                    ex.append(a[2])
                    post += a[3]
                else:
                    if i.get("trait"):
                        f = "<%s as %s>::%s" % (self.rust(i["self"]), self.rust(i["trait"]), i["name"])
                    elif i.get("self"):
                        f = "<%s>::%s" % (self.rust(i["self"]), i["name"])
                    else:
                        f = "langtag::" + i["name"]
                    call = "%s(%s)" % (f, ", ".join(ex))
                    e = "(%s) { %s%s %s }" % (", ".join(ps), pre, "Valid::valid(%s);" % call if self.mentions(res) else "let _ = %s;" % call, post)
                    if e not in out:
                        out.append(e)
            yield i, out


def c18_prepare(main):
    """Reads the interface, applies the rules on it, and writes the entry points."""
    main.build_engine()
    err, api, _ = interface(["serde", "std"])
    if err:
        main.die("the crate does not compile: %s" % err[0])
    g = Gen(api)
    bad, none = [], []
    n = 0

    def viol(kind, what, i):
        bad.append({"kind": kind, "what": what, "function": show(i), "at": i["at"]})

    for name in sorted(g.guarded):
        i = g.types[name]
        for f in i["fields"]:
            n += 1
            t = f["type"]
            if not f["public"] or i["kind"] == "Enum" and not re.search(r"\b%s\b" % RAW, t):
                continue
            if re.search(r"(?<![\w:])(%s|usize)(?!\w)" % RAW, t):
                viol("public-field", "safe code can build or alter a %s through its public field %s: %s" % (name, f["name"], t), i)
    for i in api:
        if i["kind"] in ("Static", "Const") or i["kind"].startswith("Static"):
            n += 1
            if "mut" in i["kind"].lower().replace("mutability: not", ""):
                viol("mutable-static", "public mutable static", i)
        if i["kind"] not in ("Fn", "AssocFn") or i["unsafe"]:
            continue
        owner = [x for x in i["inputs"] if g.mentions(x)]
        if not owner:
            continue
        n += 1
        for w in [i["result"] or i["output"]]:
            for m in MUTABLE.finditer(w):
                if last(m[1]) not in g.types:
                    viol("mutable-access", "safe function gives mutable access: %s -> %s" % (", ".join(i["inputs"]), w), i)
        for w in i["where"] + i["inputs"]:
            if re.search(r"\bFn(Mut|Once)?\b", w) and re.search(r"(&('\w+ )?mut|\*mut) %s(?!\w)" % RAW, w):
                viol("mutable-access", "safe function lends mutable access to a callback: %s" % w, i)
    head = []
    items = []
    for i, es in g.entries():
        if not es:
            items.append((i, None))
        for e in es:
            items.append((i, e))
    d = os.path.join(B, "gen")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "c18.rs")
    left = [(i, e, k) for k, (i, e) in enumerate(items) if e]
    lost = {}
    for _ in range(6):
        open(path, "w").write("".join("pub fn g%04d_%s%s\n" % (k, re.sub(r"\W", "_", i["name"]), e) for i, e, k in left))
        r = cargo(["check", "--offline", "--locked", "--features", "c18", "--message-format=json", "--manifest-path", os.path.join(V, "harness", "Cargo.toml")], V, "wt", flags="-Awarnings")
        if r.returncode == 0:
            break
        hit = {}
        for t, m in messages(r):
            if m["level"] == "error":
                at = set()
                for s in m["spans"]:
                    lines_of(s, "gen/c18.rs", at)
                for l in at:
                    hit.setdefault(l, m["message"])
        if not hit:
            main.die("the entry points do not compile\n" + r.stderr[-3000:])
        for l in hit:
            i, e, k = left[l - 1]
            lost.setdefault(id(i), (i, hit[l]))
        left = [x for j, x in enumerate(left) if j + 1 not in hit]
    have = {id(i) for i, e, k in left}
    for i, e in items:
        if id(i) in have or (e is None and id(i) in lost):
            continue
        if i.get("trait", "").split("<")[0].endswith("IntoIterator"):
            continue
        have.add(id(i))
        raw = any(re.search(r"(?<![\w:])%s(?!\w)" % RAW, x) for x in i["inputs"] + i["where"]) or not any(g.mentions(x) for x in i["inputs"])
        res = i["result"] or i["output"]
        if raw and not re.search(r"\b(Result|Option)\b", res):
            viol("unvalidated", "safe function makes or changes a value from raw data without a way to refuse it: (%s) -> %s" % (", ".join(i["inputs"]), res), i)
        else:
            none.append("no entry point for %s: (%s) -> %s %s" % (show(i), ", ".join(i["inputs"]), res, lost.get(id(i), ("", ""))[1]))
    covered = len({id(i) for i, e, k in left})
    return bad, none, {"obligations": n, "discharged": max(0, n - len(bad)), "interface_items": len(api), "functions_covered_by_entry_points": covered, "interface_rule": C18_RULE}
