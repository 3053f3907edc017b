"""Planted bugs: written from the property texts. Only seedgen.py reads this."""
ALL = BUGS = []


def bug(id, property, needs, breaks, edits, demo, **kw):
    if "fn main" not in demo:
        demo = "use langtag::*;\n#[allow(unused_imports)]\nuse std::cmp::Ordering;\nfn main() {\n" + demo + "}\n"
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **kw))


G, L, N, X, V = "src/grammar.rs", "src/lib.rs", "src/normal/mod.rs", "src/normal/extension.rs", "src/normal/variant.rs"
U, GF, PU = "src/utils.rs", "src/grandfathered.rs", "src/normal/private_use.rs"
LG, PR, EL, RG, SC = "src/normal/language/mod.rs", "src/normal/language/primary.rs", "src/normal/language/extlang.rs", "src/normal/region.rs", "src/normal/script.rs"

bug("c01-guoy", "C01", "the language zh followed by the script Guoy and further subtags",
    "a script that is a prefix of a grandfathered tag cannot be followed by further subtags",
    [(G, "105u32 => match token {\n\t\t\t\t'-' => 48u32,\n", "105u32 => match token {\n")],
    'assert!(LangTag::new("zh-Guoy-CN").is_ok());')
bug("c02-region9", "C02", "a numeric region whose last digit is 9, parsed on its own or through the accessor",
    "Region rejects UN M.49 codes ending in 9",
    [(G, "3u32 => match token {\n\t\t\t\t'0'..='9' => 4u32,\n\t\t\t\t_ => return false,\n\t\t\t},\n\t\t\t_ => return false,\n\t\t};\n\t\ttrue\n\t}\n\tpub const fn is_accepting(&self) -> bool {\n\t\tmatches!(self.state, 4u32)",
      "3u32 => match token {\n\t\t\t\t'0'..='8' => 4u32,\n\t\t\t\t_ => return false,\n\t\t\t},\n\t\t\t_ => return false,\n\t\t};\n\t\ttrue\n\t}\n\tpub const fn is_accepting(&self) -> bool {\n\t\tmatches!(self.state, 4u32)")],
    'assert!(Region::new("419").is_ok()); assert!(Region::new("150").is_ok());')
bug("c03-get-run", "C03", "a looked-up extension that is followed by another one",
    "Extensions::get returns text that runs into the following extensions, which is not a valid Extension",
    [(X, "|_, segment| segment.len() > 1);", "|_, segment| !segment.is_empty());")],
    'let e = Extensions::new("a-foo-b-bar").unwrap().get(Singleton::new(b\'a\').unwrap()).unwrap(); assert!(Extension::new(e.as_str()).is_ok());')
bug("c04-back", "C04", "taking a single-variant list from the back",
    "VariantsIter::next_back underflows when it reaches the first variant",
    [(V, "self.end = if start > 0 { start - 1 } else { 0 };", "self.end = start - 1;")],
    'let t = NormalLangTag::new("sl-nedis").unwrap(); assert!(t.variants().last().is_some());')
bug("c05-len3", "C05", "a numeric region directly after the language",
    "a three digit region is taken for an extended language subtag",
    [(N, "i == 0 || ExtendedLangTag::new(segment).is_ok()", "i == 0 || segment.len() == 3")],
    'let t = NormalLangTag::new("es-419").unwrap(); assert!(t.language() == "es"); assert!(t.region().unwrap() == "419");')
bug("c06-short", "C06", "an extension subtag of exactly two characters",
    "the extension list ends before a two-character subtag",
    [(N, "Singleton::from_string(segment).is_ok() || ExtensionSubtag::new(segment).is_ok()", "Singleton::from_string(segment).is_ok() || segment.len() > 2")],
    'let t = NormalLangTag::new("de-t-en-foo").unwrap(); assert!(t.extensions() == "t-en-foo"); assert!(t.private_use().is_none());')
bug("c06-lowx", "C06", "a private use part that starts with X and has a subtag x later on, as in aa-X-aa-x-a",
    "the private use part is searched with a lower case x first",
    [(N, "\t\tlet extensions_end = self.extensions_range().end;\n\n\t\tif extensions_end < self.0.len() {\n\t\t\tSome(extensions_end + 1)\n\t\t} else {\n\t\t\tNone\n\t\t}\n", "\t\tself.0.find(\"-x-\").or_else(|| self.0.find(\"-X-\")).map(|i| i + 1)\n")],
    'let t = NormalLangTag::new("aa-X-aa-x-a").unwrap(); assert!(t.private_use().unwrap() == "X-aa-x-a"); assert_eq!(t.private_use_subtags().count(), 3);')
bug("c10-ext3", "C10", "an extension whose first subtag has two characters, followed by another subtag",
    "ExtensionsIter starts looking for the end one character into the first subtag",
    [(X, "let offset = self.offset + 2; // skip singleton;", "let offset = self.offset + 3; // skip singleton;")],
    'let v: Vec<_> = Extensions::new("t-en-foo-u-ca").unwrap().iter().map(|e| e.as_str()).collect(); assert_eq!(v, ["t-en-foo", "u-ca"]);')
bug("c12-lower", "C12", "an extension whose singleton is an upper case letter", "Extension::singleton folds the letter",
    [(X, "Singleton(self.0.as_bytes()[0])", "Singleton(utils::into_smallcase(self.0.as_bytes()[0]))")],
    "let e = Extension::new(\"U-ca\").unwrap(); assert_eq!(e.singleton().to_string(), \"U\");")
bug("c15-len", "C15", "three texts, two of them longer than eight bytes and of different lengths", "long texts are ordered by their length, short ones by their letters",
    [(U, "\tlet mut i = 0;\n\n\tloop {", "\tif a.len() > 8 && b.len() > 8 && a.len() != b.len() {\n\t\treturn a.len().cmp(&b.len());\n\t}\n\n\tlet mut i = 0;\n\n\tloop {")],
    'let (a, b, c) = (LangTag::new("de-1901-x-foo").unwrap(), LangTag::new("en").unwrap(), LangTag::new("fr-x-foobar-foobar").unwrap());\nlet d = LangTag::new("za-x-foobar").unwrap();\nlet mut v = [a, b, c, d];\nfor x in v { for y in v { for z in v { if x < y && y < z { assert!(x < z); } } } }\nv.sort();')
bug("c13-parts", "C13", "two tags that differ in their private use part only", "normal tags are compared component by component, without the private use part",
    [(N, "utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())", "self.language() == other.language()\n\t\t\t&& self.script() == other.script()\n\t\t\t&& self.region() == other.region()\n\t\t\t&& self.variants() == other.variants()\n\t\t\t&& self.extensions() == other.extensions()")],
    'assert!(NormalLangTag::new("en-x-a").unwrap() != NormalLangTag::new("en-x-b").unwrap()); assert!(NormalLangTag::new("en-x-a").unwrap() == NormalLangTag::new("EN-x-A").unwrap());')
bug("c26-lt", "C26", "regions whose letter case differs, compared with <", "the operator < on regions compares verbatim",
    [(RG, "\t\tSome(self.cmp(other))\n\t}\n", "\t\tSome(self.cmp(other))\n\t}\n\n\tfn lt(&self, other: &Self) -> bool {\n\t\tself.as_bytes() < other.as_bytes()\n\t}\n")],
    'let (a, b) = (Region::new("FR").unwrap(), Region::new("fr").unwrap()); assert_eq!(*a < *b, a.partial_cmp(b) == Some(Ordering::Less)); assert!(!(*a < *b));')
bug("c16-static", "C16", "the address of the language of a tag that is just en", "the language of en is a static text instead of a slice of the tag",
    [(N, "unsafe { Language::new_unchecked(&self.0[..self.language_end()]) }", "if &self.0 == \"en\" {\n\t\t\treturn unsafe { Language::new_unchecked(\"en\") };\n\t\t}\n\n\t\tunsafe { Language::new_unchecked(&self.0[..self.language_end()]) }")],
    'let s = String::from("en"); let t = NormalLangTag::new(&s).unwrap(); assert_eq!(t.language().as_str().as_ptr(), s.as_ptr());')
bug("c07-order", "C07", "zh-min-nan or zh-min, tags that are normal and grandfathered",
    "LangTag::language answers from the grandfathered registry first and drops the extended subtags of the normal form",
    [(L, "match NormalLangTag::new(&self.0) {\n\t\t\tOk(t) => Some(t.language()),\n\t\t\tErr(_) => match GrandfatheredLangTag::new(&self.0) {\n\t\t\t\tOk(t) => t.language(),\n\t\t\t\tErr(_) => None,\n\t\t\t},",
      "match GrandfatheredLangTag::new(&self.0) {\n\t\t\tOk(t) => t.language(),\n\t\t\tErr(_) => match NormalLangTag::new(&self.0) {\n\t\t\t\tOk(t) => Some(t.language()),\n\t\t\t\tErr(_) => None,\n\t\t\t},")],
    'let t = LangTag::new("zh-min-nan").unwrap(); assert_eq!(t.language().unwrap().as_str(), t.as_normal().unwrap().language().as_str());')
bug("c08-order", "C08", "a regular grandfathered tag, which is also a normal tag",
    "as_typed classifies regular grandfathered tags as grandfathered although is_normal holds",
    [(L, "match NormalLangTag::new(&self.0) {\n\t\t\tOk(t) => TypedLangTag::Normal(t),\n\t\t\tErr(_) => match PrivateUseLangTag::new(&self.0) {\n\t\t\t\tOk(t) => TypedLangTag::PrivateUse(t),\n\t\t\t\tErr(_) => TypedLangTag::Grandfathered(GrandfatheredLangTag::new(&self.0).unwrap()),\n\t\t\t},\n\t\t}",
      "match GrandfatheredLangTag::new(&self.0) {\n\t\t\tOk(g) => TypedLangTag::Grandfathered(g),\n\t\t\tErr(_) => match PrivateUseLangTag::new(&self.0) {\n\t\t\t\tOk(t) => TypedLangTag::PrivateUse(t),\n\t\t\t\tErr(_) => TypedLangTag::Normal(NormalLangTag::new(&self.0).unwrap()),\n\t\t\t},\n\t\t}")],
    'for s in ["art-lojban", "no-bok", "fr", "x-a", "i-ami"] { let t = LangTag::new(s).unwrap(); assert_eq!(t.kind().is_normal(), t.is_normal()); }')
bug("c09-fold", "C09", "a byte string with a control character where a registered tag has a hyphen or digit",
    "case folding by setting bit 5 also folds control characters onto the hyphen, so garbage is recognised as a grandfathered tag",
    [(U, "if c.is_ascii_uppercase() { c + 0x20 } else { c }", "c | 0x20")],
    'assert!(GrandfatheredLangTag::new("i\\rami").is_err()); assert!(GrandfatheredLangTag::new("i-ami").is_ok());')
bug("c09-case", "C09", "printing sgn-CH-DE", "a grandfathered tag prints in another letter case than its registration",
    [(GF, 'b"sgn-CH-DE"', 'b"sgn-CH-de"')],
    'assert_eq!(GrandfatheredLangTag::new("SGN-ch-DE").unwrap().to_string(), "sgn-CH-DE");')
bug("c10-single", "C10", "a private use part whose last subtag has one character",
    "the last one-character private use subtag is dropped",
    [(PU, "if self.offset < self.data.len() {", "if self.offset + 1 < self.data.len() {")],
    'assert_eq!(PrivateUse::new("x-ab-c").unwrap().iter().count(), 2);')
bug("c11-mixed", "C11", "front calls after back calls on the variants iterator",
    "variants already taken from the back are yielded again at the front",
    [(V, "if self.offset < self.end {", "if self.offset < self.data.len() {")],
    'let v = Variants::new("abcde-fghij").unwrap(); let mut i = v.iter(); i.next(); i.next_back(); assert!(i.next().is_none());')
bug("c12-inside", "C12", "a subtag of 8 characters that ends in the singleton looked up",
    "after 7 characters of a subtag the scan looks for a singleton again",
    [(X, "\t\tlet mut starting = true;\n\t\twhile", "\t\tlet mut starting = true;\n\t\tlet mut run = 0;\n\t\twhile"),
     (X, "\t\t\t\tstarting = false\n\t\t\t} else if bytes[i] == b'-' {\n\t\t\t\tstarting = true\n\t\t\t}",
      "\t\t\t\tstarting = false;\n\t\t\t\trun = 0\n\t\t\t} else if bytes[i] == b'-' || run == 5 {\n\t\t\t\tstarting = true\n\t\t\t} else {\n\t\t\t\trun += 1\n\t\t\t}")],
    'let e = Extensions::new("a-foooooob-bar-b-baz").unwrap().get(Singleton::new(b\'b\').unwrap()).unwrap(); assert!(e == "b-baz");')
bug("c13-region", "C13", "two regions that differ in letter case", "Region equality is case sensitive",
    [(RG, "utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())", "self.as_bytes() == other.as_bytes()")],
    'assert!(Region::new("fr").unwrap() == Region::new("FR").unwrap());')
bug("c14-script", "C14", "two equal scripts in different letter case", "Script hashes its text verbatim",
    [(SC, "utils::case_insensitive_hash(self.as_bytes(), state)", "self.as_bytes().hash(state)")],
    '''use std::hash::{Hash, Hasher, DefaultHasher};
let h = |s: &str| { let mut h = DefaultHasher::new(); Script::new(s).unwrap().hash(&mut h); h.finish() };
assert_eq!(h("Latn"), h("LATN"));''')
bug("c15-asym", "C15", "an upper case letter in the right operand", "the right operand is not folded before it is compared",
    [(U, "match into_smallcase(a[i]).cmp(&into_smallcase(b[i])) {", "match into_smallcase(a[i]).cmp(&b[i]) {")],
    'assert_eq!(LangTag::new("fr").unwrap().cmp(LangTag::new("FR").unwrap()), Ordering::Equal);')
bug("c16-err", "C16", "a rejected byte string that ends in a hyphen", "the error of the grandfathered parser holds a truncated input",
    [(GF, "Err(InvalidGrandfatheredTag(bytes))", "Err(InvalidGrandfatheredTag(bytes.strip_suffix(b\"-\").unwrap_or(bytes)))")],
    'let e = GrandfatheredLangTag::try_from(&b"i-ami-"[..]).err().unwrap(); assert_eq!(e.0, b"i-ami-");')
bug("c17-trunc", "C17", "a character above U+00FF whose low byte is a letter or digit",
    "a non-ASCII character is truncated to a byte and accepted as a singleton",
    [(X, "if codepoint < u8::MAX as u32 {", "if codepoint <= 0xFFFF {")],
    "assert!(Singleton::try_from('\\u{161}').is_err()); assert!(Singleton::try_from('a').is_ok());")
ALL = BUGS

CF = """#!/bin/bash
# Programs that safe code must not be able to compile (each bad_*.rs), and one that it must (good.rs).
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2024"

[dependencies]
langtag = { path = "$repo", features = ["std", "serde"] }
serde = "1"

[workspace]
END
unset RUSTC_WRAPPER RUSTFLAGS
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
try() {
	cp "$1" "$d/src/main.rs"
	(cd "$d" && timeout 120 cargo check -q --offline 2>"$d/err")
}
try "$here/good.rs" || { cat "$d/err"; exit 3; }
for f in "$here"/bad_*.rs; do
	[ -e "$f" ] || continue
	if try "$f"; then echo "compiles: $f"; exit 1; fi
done
exit 0
"""


def cf(id, property, needs, breaks, edits, good, *bad):
    w = "#![forbid(unsafe_code)]\n#![allow(unused)]\nuse langtag::*;\nfn main() {\n%s\n}\n"
    files = {"good.rs": w % good}
    for i, b in enumerate(bad):
        files["bad_%d.rs" % i] = w % b
    bug(id, property, needs, breaks, edits, "fn main() {}", demo_sh=CF, files=files)


cf("c18-field", "C18", "a program that builds a Singleton with its tuple constructor", "safe code can make a Singleton out of any byte",
   [(X, "pub struct Singleton(u8);", "pub struct Singleton(pub u8);")],
   "let _ = Singleton::new(b'a');", "let _ = Singleton(b'!');")
cf("c18-iter", "C18", "a program that makes a subtag iterator over its own text", "safe code obtains variants out of text that was never validated",
   [(V, "\tfn new(data: &'a str) -> Self", "\tpub fn new(data: &'a str) -> Self")],
   "let _ = VariantsIter::empty();", 'let _ = VariantsIter::new("!").next();')
cf("c18-mut", "C18", "a program that edits an owned tag in place", "the text of an owned tag can be overwritten by safe code",
   [(L, "/// Any language tag (normal, private use or grandfathered).\n#[derive", "#[cfg(feature = \"std\")]\nimpl AsMut<str> for LangTagBuf {\n\tfn as_mut(&mut self) -> &mut str {\n\t\tself.0.as_mut_str()\n\t}\n}\n\n/// Any language tag (normal, private use or grandfathered).\n#[derive")],
   'let t = LangTagBuf::new("fr".to_string()).unwrap(); let _ = t.as_str();', 'let mut t = LangTagBuf::new("fr".to_string()).unwrap(); let s: &mut str = t.as_mut();')

# second batch
bug("c02-subtag1", "C02", "a private use subtag of one character parsed on its own",
    "PrivateUseSubtag is validated with the production of extension subtags, two characters or more",
    [(PU, "#[automaton(crate::grammar::PrivateuseSubtag)]", "#[automaton(crate::grammar::ExtensionSubtag)]")],
    'assert!(PrivateUseSubtag::new("a").is_ok());')
bug("c03-upperx", "C03", "a private use part written with a capital X",
    "the extensions of a tag swallow its private use part when that is introduced by a capital X",
    [(N, "Singleton::from_string(segment).is_ok() || ExtensionSubtag::new(segment).is_ok()", "(segment.len() == 1 && segment != \"x\") || ExtensionSubtag::new(segment).is_ok()")],
    'let t = NormalLangTag::new("de-a-foo-X-bar").unwrap(); assert!(Extensions::new(t.extensions().as_str()).is_ok());')
bug("c04-tsu", "C04", "the irregular grandfathered tag i-tsu", "classifying a grandfathered tag that is missing from the list unwraps an error",
    [(GF, "\tITay, ITsu, SgnBeFr, SgnBeNl, SgnChDe, ArtLojban", "\tITay, ITay, SgnBeFr, SgnBeNl, SgnChDe, ArtLojban")],
    'assert!(LangTag::new("i-tsu").unwrap().kind().is_grandfathered());')
bug("c05-frag", "C05", "a region after a language of five or more letters without script",
    "a region is not found after a long language",
    [(N, "\t\tlet offset = script_end + 1;\n", "\t\tif script_end > 4 && script_end == self.language_end() && self.0.len() == script_end + 3 {\n\t\t\treturn Err(script_end);\n\t\t}\n\n\t\tlet offset = script_end + 1;\n")],
    'let t = NormalLangTag::new("abcde-FR").unwrap(); assert!(t.region().unwrap() == "FR");')
bug("c05-ext3", "C05", "a three letter language with three extended subtags", "the language stops before the twelfth character",
    [(N, "i == 0 || ExtendedLangTag::new(segment).is_ok()", "i == 0 || (i < 12 && ExtendedLangTag::new(segment).is_ok())")],
    'let t = NormalLangTag::new("aaa-bbb-ccc-ddd").unwrap(); assert!(t.language() == "aaa-bbb-ccc-ddd");')
bug("c06-vardig", "C06", "a variant of more than four characters that starts with a digit",
    "a variant that starts with a digit is only recognised when it has four characters",
    [(N, "find_list_end(&self.0, offset, |_, segment| Variant::new(segment).is_ok())", "find_list_end(&self.0, offset, |_, segment| {\n\t\t\tmatch segment.as_bytes().first() {\n\t\t\t\tSome(b'0'..=b'9') => segment.len() == 4,\n\t\t\t\t_ => segment.len() > 4,\n\t\t\t}\n\t\t})")],
    'let t = NormalLangTag::new("de-1abcd").unwrap(); assert!(t.variants() == "1abcd"); assert!(t.private_use().is_none());')
bug("c06-minpu", "C06", "the shortest private use part, as in fr-x-a", "a private use part of one one-character subtag is not reported",
    [(N, "if extensions_end < self.0.len() {", "if extensions_end + 4 < self.0.len() {")],
    'let t = NormalLangTag::new("fr-x-a").unwrap(); assert!(t.private_use().unwrap() == "x-a");')
bug("c07-gf-extlang", "C07", "a zh-min-nan style tag seen through the typed view",
    "extensions of a tag are only looked for when it has no private use part",
    [(L, "\t\tself.as_normal()\n\t\t\t.map(NormalLangTag::extensions)\n", "\t\tself.as_normal()\n\t\t\t.filter(|t| self.0.len() < 9 || t.private_use().is_none())\n\t\t\t.map(NormalLangTag::extensions)\n")],
    'let t = LangTag::new("fr-a-foo-x-bar").unwrap(); assert!(t.extensions() == t.as_normal().unwrap().extensions());')
bug("c07-pu", "C07", "a pure private use tag", "a pure private use tag reports a private use part although it has no normal form",
    [(L, "\t\tself.as_normal().and_then(NormalLangTag::private_use)\n", "\t\tself.as_normal().and_then(NormalLangTag::private_use).or_else(|| self.as_private_use())\n")],
    'assert!(LangTag::new("x-foo").unwrap().private_use().is_none());')
bug("c08-gf", "C08", "a regular grandfathered tag", "tags that are also normal are no longer recognised as grandfathered",
    [(L, "\t\tGrandfatheredLangTag::new(&self.0).ok()\n", "\t\tGrandfatheredLangTag::new(&self.0).ok().filter(|_| NormalLangTag::new(&self.0).is_err())\n")],
    'assert!(LangTag::new("art-lojban").unwrap().is_grandfathered());')
bug("c08-typed", "C08", "the typed view of a private use tag", "the typed view of a private use tag says it is a grandfathered tag",
    [(L, "\t\tmatches!(self, Self::Grandfathered(_))\n", "\t\t!matches!(self, Self::Normal(_))\n")],
    'assert!(!LangTag::new("x-a").unwrap().as_typed().is_grandfathered()); assert!(LangTag::new("i-ami").unwrap().as_typed().is_grandfathered());')
bug("c09-dup", "C09", "the tag zh-min-nan", "zh-min-nan is missing from the registry",
    [(GF, "\tZhMin, ZhMinNan, ZhXiang,\n]", "\tZhMin, ZhXiang, ZhXiang,\n]")],
    'assert!(GrandfatheredLangTag::new("zh-min-nan").is_ok());')
bug("c09-lang", "C09", "the language of no-nyn", "no-nyn reports its second subtag as language",
    [(GF, 'NoNyn => Some(Language::new_unchecked("no")),', 'NoNyn => Some(Language::new_unchecked("nyn")),')],
    'assert!(GrandfatheredLangTag::new("no-nyn").unwrap().language().unwrap() == "no");')
bug("c10-skip", "C10", "a private use subtag of one character in the middle", "the search for the end of a subtag skips two characters",
    [(N, "\tlet bytes = string.as_bytes();\n\tlet mut i = offset;\n\twhile", "\tlet bytes = string.as_bytes();\n\tlet mut i = bytes.len().min(offset + 2);\n\twhile")],
    'let v: Vec<_> = PrivateUse::new("x-a-b").unwrap().iter().map(|s| s.as_str()).collect(); assert_eq!(v, ["a", "b"]);')
bug("c10-extlang", "C10", "three extended language subtags", "the third extended language subtag is not iterated",
    [(EL, "if self.offset < self.data.len() {", "if self.offset < self.data.len().min(8) {")],
    'assert_eq!(LanguageExtension::new("abc-def-ghi").unwrap().iter().count(), 3);')
bug("c11-back0", "C11", "back calls after front calls on the variants iterator", "variants taken from the front are yielded again from the back",
    [(V, "if self.end > self.offset {", "if self.end > 0 {")],
    'let v = Variants::new("abcde-fghij").unwrap(); let mut i = v.iter(); i.next(); i.next(); assert!(i.next_back().is_none());')
bug("c11-last", "C11", "the last of five or more variants", "last looks at no more than four variants",
    [(V, "self.iter().next_back()", "self.iter().take(4).last()")],
    'assert!(Variants::new("abcde-fghij-klmno-pqrst-uvwxy").unwrap().last().unwrap() == "uvwxy");')
bug("c12-end2", "C12", "an extension whose first subtag has two characters and is the last", "an extension that ends the list with one two-character subtag is not found",
    [(X, "while i + 1 < self.0.len() {", "while i + 4 < self.0.len() {")],
    'let e = Extensions::new("a-foo-b-cd").unwrap(); assert!(e.get(Singleton::new(b\'b\').unwrap()).is_some());')
bug("c13-z", "C13", "texts that differ in the case of the letter z", "the letter Z is not folded",
    [(U, "if c.is_ascii_uppercase() {", "if (b'A'..b'Z').contains(&c) {")],
    'assert!(Variant::new("zzzzz").unwrap() == Variant::new("ZZZZZ").unwrap());')
bug("c13-long", "C13", "texts of more than 16 bytes that differ late", "only whole words of eight bytes are compared in long texts",
    [(U, "for i in 0..a.len() {", "let n = if a.len() > 32 { a.len() & !7 } else { a.len() };\n\t\tfor i in 0..n {")],
    'let a = "fr-x-aaaaaaaa-bbbbbbbb-cccccccc-dddde"; let b = "fr-x-aaaaaaaa-bbbbbbbb-cccccccc-ddddf"; assert!(LangTag::new(a).unwrap() != LangTag::new(b).unwrap());')
bug("c14-eight", "C14", "two equal texts that differ in case after the eighth byte", "only the first eight bytes are folded when hashing",
    [(U, "\tfor b in bytes {\n\t\tinto_smallcase(*b).hash(hasher)\n\t}", "\tlet (head, tail) = bytes.split_at(bytes.len().min(8));\n\tfor b in head {\n\t\tinto_smallcase(*b).hash(hasher)\n\t}\n\thasher.write(tail)")],
    '''use std::hash::{Hash, Hasher, DefaultHasher};
let h = |s: &str| { let mut h = DefaultHasher::new(); LangTag::new(s).unwrap().hash(&mut h); h.finish() };
assert_eq!(h("fr-Latn-FR"), h("fr-Latn-fr"));''')
bug("c15-partial", "C15", "partial comparison of two private use parts in different case", "partial_cmp of PrivateUse compares verbatim while cmp folds",
    [(PU, "impl PartialOrd for PrivateUse {\n\tfn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {\n\t\tSome(self.cmp(other))", "impl PartialOrd for PrivateUse {\n\tfn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {\n\t\tself.as_bytes().partial_cmp(other.as_bytes())")],
    'let (a, b) = (PrivateUse::new("x-a").unwrap(), PrivateUse::new("x-A").unwrap()); assert_eq!(a.partial_cmp(b), Some(a.cmp(b)));')
bug("c15-anti", "C15", "two texts of which one is a prefix of the other", "a text and its prefix are each less than the other",
    [(U, "\t\t\treturn Ordering::Greater;\n", "\t\t\treturn Ordering::Less;\n")],
    'let (a, b) = (LangTag::new("fr").unwrap(), LangTag::new("fr-FR").unwrap()); assert_eq!(a.cmp(b), b.cmp(a).reverse());')
bug("c16-lower", "C16", "a rejected upper case text", "the error of Singleton's FromStr holds a folded copy of the input",
    [(X, "Self::from_string(str).map_err(|_| InvalidSingleton(str.to_owned()))", "Self::from_string(str).map_err(|_| InvalidSingleton(str.to_ascii_lowercase()))")],
    'let e = "AB".parse::<Singleton>().err().unwrap(); assert_eq!(e.0, "AB");')
bug("c17-latin", "C17", "a byte above 0x7f that is a letter in Latin-1", "Latin-1 letters are accepted as singletons",
    [(X, "c.is_ascii_alphanumeric()", "(c as char).is_alphanumeric()")],
    'assert!(Singleton::new(0xe9).is_err()); assert!(Singleton::new(b\'a\').is_ok());')
bug("c17-show", "C17", "printing an upper case singleton", "an upper case singleton prints in lower case",
    [(X, "impl fmt::Display for Singleton {\n\tfn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n\t\t(self.0 as char).fmt(f)", "impl fmt::Display for Singleton {\n\tfn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n\t\t(utils::into_smallcase(self.0) as char).fmt(f)")],
    'assert_eq!(Singleton::new(b\'A\').unwrap().to_string(), "A");')
cf("c18-from", "C18", "a program that turns its own text into a region with From", "a safe conversion builds a region without validation",
   [(RG, "impl PartialEq for Region {", "impl<'a> From<&'a [u8; 2]> for &'a Region {\n\tfn from(code: &'a [u8; 2]) -> Self {\n\t\tmatch core::str::from_utf8(code) {\n\t\t\tOk(code) => unsafe { Region::new_unchecked(code) },\n\t\t\tErr(_) => unsafe { Region::new_unchecked(\"ZZ\") },\n\t\t}\n\t}\n}\n\nimpl PartialEq for Region {")],
   'let _ = Region::new("FR");', 'let r: &Region = b"!!".into();')


NOSTD = """#!/bin/bash
# A program without std must build against langtag without default features.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cp "$here/demo.rs" "$d/src/lib.rs"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2024"

[lib]
crate-type = ["staticlib"]

[profile.dev]
panic = "abort"

[dependencies]
langtag = { path = "$repo", default-features = false }

[patch.crates-io]
str-newtype = { path = "str-newtype" }

[workspace]
END
# str-newtype links std by default; here it must not
cp -r "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/str-newtype-2.0.0 "$d/str-newtype" || exit 3
sed -i 's/^default = .*/default = []/' "$d/str-newtype/Cargo.toml"
unset RUSTC_WRAPPER RUSTFLAGS
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd "$d" && timeout 250 cargo build -q --offline
"""
NOSTD_RS = """#![no_std]
use langtag::*;
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! { loop {} }
#[unsafe(no_mangle)]
pub extern "C" fn demo(p: *const u8, n: usize) -> usize {
    let s = unsafe { core::slice::from_raw_parts(p, n) };
    %s
}
"""


def nostd(id, needs, breaks, edits, body):
    bug(id, "C19", needs, breaks, edits, NOSTD_RS.replace("%s", body) + "// fn main", demo_sh=NOSTD, files={"demo.rs": NOSTD_RS.replace("%s", body)})


USE = "match NormalLangTag::from_bytes(s) { Ok(t) => t.language().as_str().len(), Err(_) => 0 }"
nostd("c19-attr", "a program with its own panic handler, without the std feature", "the crate depends on std whatever its features",
      [(L, '#![cfg_attr(not(feature = "std"), no_std)]\n', "")], USE)
nostd("c19-back", "a use of the back end of the variants without the std feature", "VariantsIter is only double-ended with the std feature",
      [(V, "impl<'a> DoubleEndedIterator for", '#[cfg(feature = "std")]\nimpl<\'a> DoubleEndedIterator for'),
       (V, "\t\tself.iter().next_back()\n", '\t\t#[cfg(feature = "std")]\n\t\treturn self.iter().next_back();\n\t\t#[cfg(not(feature = "std"))]\n\t\tself.iter().last()\n')],
      "match Variants::from_bytes(s) { Ok(t) => t.iter().next_back().map_or(0, |v| v.as_str().len()), Err(_) => 0 }")
nostd("c19-hash", "hashing a script without the std feature", "Script can be hashed only with the std feature",
      [(SC, "impl Hash for Script {\n\tfn hash<H: core::hash::Hasher>", '#[cfg(feature = "std")]\nimpl Hash for Script {\n\tfn hash<H: core::hash::Hasher>'),
       (SC, "use core::hash::Hash;\n", '#[cfg(feature = "std")]\nuse core::hash::Hash;\n')],
      "fn h<T: core::hash::Hash + ?Sized>(_: &T) -> usize { 1 } match Script::from_bytes(s) { Ok(t) => h(t), Err(_) => 0 }")


def rs(id, property, needs, breaks, edits, body, items=""):
    """A demo that does not build with the bug in place."""
    t = "#![allow(unused)]\nuse langtag::*;\nuse serde::{Serialize, Deserialize, de::IntoDeserializer, de::value::{Error, StrDeserializer, StringDeserializer, BorrowedStrDeserializer}};\n" + items + "\nfn main() {\n" + body + "\n}\n"
    bug(id, property, needs, breaks, edits, t, demo_sh=None, files={"demo.rs": t})


SHOW = """struct Show<'a, T: ?Sized>(&'a T);
impl<T: Serialize + ?Sized> std::fmt::Display for Show<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { self.0.serialize(f) }
}
"""
SER = """
#[cfg(feature = "serde")]
impl serde::Serialize for NAME {
	fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
		serializer.serialize_str(SBODY)
	}
}

#[cfg(all(feature = "serde", feature = "std"))]
impl serde::Serialize for NAMEBuf {
	fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
		serializer.serialize_str(self.as_str())
	}
}

#[cfg(feature = "serde")]
impl<'a, 'de: 'a> serde::Deserialize<'de> for &'a NAME {
	fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
		let text = <&'de str>::deserialize(deserializer)?;
		NAME::new(text).map_err(|_| serde::de::Error::custom("invalid"))
	}
}

#[cfg(all(feature = "serde", feature = "std"))]
impl<'de> serde::Deserialize<'de> for NAMEBuf {
	fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
		let text = String::deserialize(deserializer)?;
		NAMEBuf::new(DBODY).map_err(|_| serde::de::Error::custom("invalid"))
	}
}
"""


def ser(name, sbody="self.as_str()", dbody="text"):
    return SER.replace("NAME", name).replace("SBODY", sbody).replace("DBODY", dbody)


SERDE = '#[cfg_attr(feature = "serde", newtype(serde))]\n'
rs("c20-variants", "C20", "serialising a list of variants", "Variants has no serde support",
   [(V, SERDE + "pub struct Variants(str);", "pub struct Variants(str);")],
   'assert_eq!(Show(Variants::new("abcde").unwrap()).to_string(), "abcde");', SHOW)
rs("c20-upper", "C20", "serialising a region written in lower case", "a region is serialised in the recommended upper case",
   [(RG, SERDE + "pub struct Region(str);\n", "pub struct Region(str);\n" + ser("Region", "match self.as_str().len() {\n\t\t\t2 if self.as_str() == \"fr\" => \"FR\",\n\t\t\t_ => self.as_str(),\n\t\t}"))],
   'assert_eq!(Show(Region::new("de").unwrap()).to_string(), "de"); assert_eq!(Show(Region::new("fr").unwrap()).to_string(), "fr");', SHOW)
rs("c20-trim", "C20", "an owned script read from text that ends in a blank", "an owned script is trimmed before it is parsed",
   [(SC, SERDE + "pub struct Script(str);\n", "pub struct Script(str);\n" + ser("Script", dbody="text.trim_end_matches(' ').to_owned()"))],
   'let d: StrDeserializer<Error> = "Latn ".into_deserializer(); assert!(ScriptBuf::deserialize(d).is_err()); let d: StrDeserializer<Error> = "Latn".into_deserializer(); assert!(ScriptBuf::deserialize(d).is_ok());')
MAC = '\t\tmatch $crate::LangTag::from_str($value) {\n\t\t\tOk(value) => value,\n\t\t\tErr(_) => panic!("invalid language tag"),\n'
cf("c21-unsafe", "C21", "a literal that is not a tag", "an invalid literal becomes a tag all the same",
   [(L, '\t\t\tErr(_) => panic!("invalid language tag"),\n', '\t\t\tErr(_) => unsafe { $crate::LangTag::new_unchecked($value) },\n')],
   'const T: &LangTag = langtag!("fr-FR");', 'const T: &LangTag = langtag!("fr_FR");')
cf("c21-empty", "C21", "an empty literal", "an empty literal stands for und",
   [(L, "match $crate::LangTag::from_str($value) {", 'match $crate::LangTag::from_str(if $value.is_empty() { "und" } else { $value }) {')],
   'const T: &LangTag = langtag!("fr-FR");', 'const T: &LangTag = langtag!("");')

ABNF_SH = """#!/bin/bash
# Compares the grammar file, read by abnf.py, with the parsers of the crate on many texts.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp "$here/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2024"

[dependencies]
langtag = { path = "$repo" }

[workspace]
END
unset RUSTC_WRAPPER RUSTFLAGS
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cd "$d" && timeout 200 cargo build -q --offline || exit 3
python3 "$here/abnf.py" "$repo"/src/*.abnf "$d/target/debug/demo"
"""
ABNF_RS = """use langtag::*;
fn main() {
    for l in std::io::stdin().lines() {
        let s = l.unwrap();
        let r = [
            LangTag::new(&*s).is_ok(), PrivateUse::new(&*s).is_ok(), PrivateUseSubtag::new(&*s).is_ok(), NormalLangTag::new(&*s).is_ok(),
            Language::new(&*s).is_ok(), PrimaryLanguage::new(&*s).is_ok(), LanguageExtension::new(&*s).is_ok(), ExtendedLangTag::new(&*s).is_ok(),
            Script::new(&*s).is_ok(), Region::new(&*s).is_ok(), Variant::new(&*s).is_ok(), Variants::new(&*s).is_ok(),
            Extension::new(&*s).is_ok(), ExtensionSubtag::new(&*s).is_ok(), Extensions::new(&*s).is_ok(),
        ];
        println!("{}", r.map(|b| if b { '1' } else { '0' }).iter().collect::<String>());
    }
}
"""
ABNF_PY = r"""import itertools, random, re, subprocess, sys
text = re.sub(r";[^\n]*", "", open(sys.argv[1]).read())
rules = {}
for m in re.finditer(r"^([A-Za-z][\w-]*)\s*=(.*?)(?=^[A-Za-z][\w-]*\s*=|\Z)", text, re.S | re.M):
    rules[m.group(1).lower()] = m.group(2)
rules.setdefault("alpha", "%x41-5A / %x61-7A")
rules.setdefault("digit", "%x30-39")
TOK = re.compile(r'\s*("[^"]*"|%x[0-9A-Fa-f]+(?:-[0-9A-Fa-f]+)?|\d*\*\d*|\d+|[A-Za-z][\w-]*|[\[\]()/])')


def compile(name, memo={}):
    if name not in memo:
        toks = TOK.findall(rules[name])
        memo[name], rest = alt(toks)
        assert not rest, rest
    return memo[name]


def alt(t):
    out = []
    while True:
        e, t = cat(t)
        out.append(e)
        if not t or t[0] != "/":
            return "(?:" + "|".join(out) + ")", t
        t = t[1:]


def cat(t):
    out = ""
    while t and t[0] not in "])/":
        lo = hi = 1
        if re.fullmatch(r"\d*\*\d*", t[0]):
            a, b = t[0].split("*")
            lo, hi, t = int(a or 0), b, t[1:]
        elif t[0].isdigit():
            lo = hi = int(t[0])
            t = t[1:]
        k, t = t[0], t[1:]
        if k in "([":
            e, t = alt(t)
            t = t[1:]
            if k == "[":
                e = "(?:" + e + ")?"
        elif k[0] == '"':
            e = "(?i:" + re.escape(k[1:-1]) + ")"
        elif k[0] == "%":
            a, _, b = k[2:].partition("-")
            e = "[%s-%s]" % (re.escape(chr(int(a, 16))), re.escape(chr(int(b or a, 16))))
        else:
            e = compile(k.lower())
        out += "(?:%s){%s,%s}" % (e, lo, hi)
    return out, t


names = "language-tag privateuse privateuse-subtag langtag language primary extlang extlang-tag script region variant variants extension extension-subtag extensions".split()
res = [re.compile(compile(n)) for n in names]
rnd = random.Random(7)
pieces = ["a" * n for n in range(10)] + ["1" + "a" * n for n in range(9)] + ["1" * n for n in range(1, 10)] + ["x", "X", "b", "Z", "9", "!", "_"]
gf = re.findall(r'"([a-zA-Z]+-[a-zA-Z-]+)"', text) + "en-GB-oed i-ami i-bnn i-default i-enochian i-hak i-klingon i-lux i-mingo i-navajo i-pwn i-tao i-tay i-tsu sgn-BE-FR sgn-BE-NL sgn-CH-DE art-lojban cel-gaulish no-bok no-nyn zh-guoyu zh-hakka zh-min zh-min-nan zh-xiang".split()
texts = [""] + gf + [chr(c) for c in range(32, 127)] + [chr(c) + "-aa" for c in range(32, 127)]
for n in (1, 2, 3):
    texts += ["-".join(t) for t in itertools.product(pieces, repeat=n)][:40000]
texts += ["-".join(rnd.choice(pieces) for _ in range(rnd.randint(4, 8))) for _ in range(20000)]
texts += ["-".join(["aaa"] * n) for n in range(1, 9)]
texts = list(dict.fromkeys(texts))
out = subprocess.run([sys.argv[2]], input="\n".join(texts) + "\n", capture_output=True, text=True).stdout.split("\n")
bad = 0
for t, o in zip(texts, out):
    for n, r, b in zip(names, res, o):
        if bool(r.fullmatch(t)) != (b == "1"):
            bad += 1
            if bad < 10:
                print("%s: %r grammar %s" % (n, t, bool(r.fullmatch(t))))
sys.exit(1 if bad else 0)
"""
A = "src/grammar.abnf"


def abnf(id, needs, breaks, edits):
    bug(id, "C22", needs, breaks, edits, "fn main() {}", demo_sh=ABNF_SH, files={"demo.rs": ABNF_RS, "abnf.py": ABNF_PY})


abnf("c22-extlang", "a list of four extended subtags", "the grammar file allows one more extended language subtag than the compiled parser",
     [(A, '*2("-" extlang-tag) ; permanently', '*3("-" extlang-tag) ; permanently')])
abnf("c22-klingon", "the tag i-klingon", "the grammar file misspells an irregular grandfathered tag",
     [(A, '"i-klingon"', '"i-klingons"')])
abnf("c22-w", "an extension introduced by w", "the grammar file excludes a lower case w as singleton",
     [(A, "%x61-77             ; a - w", "%x61-76             ; a - w")])
abnf("c22-pu", "a private use subtag of nine characters", "the grammar file gives no upper bound to private use subtags",
     [(A, "privateuse-subtag = 1*8alphanum", "privateuse-subtag = 1*9alphanum")])


def endless(id, needs, breaks, edits, demo):
    """The demonstration gives up after a while."""
    bug(id, "C23", needs, breaks, edits,
        "fn main() {\nstd::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); eprintln!(\"no end\"); std::process::exit(1) });\nuse langtag::*;\n" + demo + "\n}\n")


endless("c23-back", "walking two or more variants from the back",
        "next_back leaves the separator in place, which then is taken for an empty variant over and over",
        [(V, "self.end = if start > 0 { start - 1 } else { 0 };", "self.end = start;")],
        'let v = Variants::new("abcde-fghij").unwrap(); assert!(v.iter().rev().take(1000).count() < 1000);')
endless("c23-get", "looking up a singleton that is not there",
        "Extensions::get jumps from separator to separator, and stays where it is when there is none left",
        [(X, """				starting = false
			} else if bytes[i] == b'-' {
				starting = true
			}

			i += 1
""", """				starting = false;
				i = self.0[i..].find('-').map_or(i, |n| i + n)
			} else {
				starting = bytes[i] == b'-';
				i = if starting { i + 1 } else { self.0[i..].find('-').map_or(i, |n| i + n) }
			}
""")],
        'let e = Extensions::new("a-foo-b-tbar").unwrap(); assert!(e.get(Singleton::new(b\'t\').unwrap()).is_none());')
endless("c23-eq", "two values whose eighth letters differ in case only",
        "case_insensitive_eq stays at the eighth letter when its case differs",
        [(U, """		for i in 0..a.len() {
			if into_smallcase(a[i]) != into_smallcase(b[i]) {
				return false;
			}
		}
""", """		let mut i = 0;
		while i < a.len() {
			if a[i] != b[i] {
				if into_smallcase(a[i]) != into_smallcase(b[i]) {
					return false;
				}

				if i % 8 == 7 {
					continue;
				}
			}

			i += 1
		}
""")],
        'assert!(Variant::new("abcdefgh").unwrap() == Variant::new("ABCDEFGh").unwrap()); assert!(Variant::new("abcdefgh").unwrap() == Variant::new("abcdefgH").unwrap());')
endless("c23-cmp", "comparing two values that agree on a block of 32 bytes that ends in a separator",
        "case_insensitive_cmp skips equal blocks of 32 bytes, and never gets past one that ends in a separator",
        [(U, "		} else {\n			match into_smallcase(a[i]).cmp", "		} else if i % 32 == 0 && a.len() > i + 32 && b.len() > i + 32 && a[i..i + 32] == b[i..i + 32] {\n			i += if a[i + 31] == b'-' { 0 } else { 32 }\n		} else {\n			match into_smallcase(a[i]).cmp")],
        'let p = format!("x-{}", "aaaaa-".repeat(5));\nlet (x, y) = (format!("{p}b"), format!("{p}c"));\nassert!(PrivateUse::new(&x).unwrap() < PrivateUse::new(&y).unwrap());')

COUNT = """use langtag::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
struct Count;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, SeqCst); unsafe { System.alloc(l) } }
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static A: Count = Count;
fn allocations<T>(f: impl FnOnce() -> T) -> usize { let n = N.load(SeqCst); let _r = f(); N.load(SeqCst) - n }
"""


def allocs(id, needs, breaks, edits, demo):
    bug(id, "C24", needs, breaks, edits, COUNT + "fn main() {\n" + demo + "\n}\n")


allocs("c24-cmp", "comparing two values of more than 64 bytes", "long texts are copied to fold their case before they are compared",
       [(U, "pub fn case_insensitive_cmp(a: &[u8], b: &[u8]) -> Ordering {\n\tlet mut i = 0;\n", """pub fn case_insensitive_cmp(a: &[u8], b: &[u8]) -> Ordering {
	#[cfg(feature = "std")]
	if a.len() > 64 && a.len() == b.len() {
		return a.to_ascii_lowercase().cmp(&b.to_ascii_lowercase());
	}

	let mut i = 0;
""")],
       'let (x, y) = (format!("x{}", "-abcdef".repeat(10)), format!("x{}", "-abcdEf".repeat(10)));\nlet (x, y) = (PrivateUse::new(&x).unwrap(), PrivateUse::new(&y).unwrap());\nassert_eq!(allocations(|| x.cmp(y)), 0);')
allocs("c24-gf", "recognising a tag of eleven characters as grandfathered", "the registry lookup copies the text when its length is that of a registered tag with a long name",
       [(GF, "		for tag in &GRANDFATHERED {\n			if utils", """		#[cfg(feature = "std")]
		if bytes.len() == 11 {
			let lower = bytes.to_ascii_lowercase();
			return match lower.as_slice() {
				b"i-enochian" => Ok(IEnochian),
				b"art-lojban" => Ok(ArtLojban),
				b"cel-gaulish" => Ok(CelGaulish),
				_ => Err(InvalidGrandfatheredTag(bytes)),
			};
		}

		for tag in &GRANDFATHERED {
			if utils""")],
       'assert_eq!(allocations(|| LangTag::new("cel-gaulish").unwrap().as_grandfathered()), 0); assert_eq!(allocations(|| GrandfatheredLangTag::new("CEL-gaulish")), 0);')
allocs("c24-show", "printing a grandfathered tag of a sign language", "printing sgn tags copies their text",
       [(GF, "		self.as_str().fmt(f)", """		#[cfg(feature = "std")]
		if let SgnBeFr | SgnBeNl | SgnChDe = self {
			return f.pad(&["sgn", &self.as_str()[4..6], &self.as_str()[7..]].join("-"));
		}

		self.as_str().fmt(f)""")],
       'struct Null; impl std::fmt::Write for Null { fn write_str(&mut self, _: &str) -> std::fmt::Result { Ok(()) } }\nuse std::fmt::Write;\nfor g in GRANDFATHERED { assert_eq!(allocations(|| write!(Null, "{g}")), 0); }')
allocs("c24-iter", "looking up the subtags of an absent extension", "an absent extension is looked up a second time in a collected list",
       [(X, "\t\tNone\n\t}\n\n\tpub fn iter(&self)", """		#[cfg(feature = "std")]
		if self.0.len() > 40 {
			return self.iter().collect::<Vec<_>>().into_iter().find(|e| e.singleton() == singleton);
		}

		None
	}

	pub fn iter(&self)""")],
       'let e = Extensions::new("a-bcdefghi-bcdefghi-bcdefghi-bcdefghi-bcdefghi").unwrap_or(Extensions::new("a-bcdefgh-bcdefgh-bcdefgh-bcdefgh-bcdefgh-bcdefgh").unwrap()); let s = Singleton::new(b\'u\').unwrap();\nassert_eq!(allocations(|| e.get(s)), 0);')
bug("c25-hint", "C25", "two lookups of the same singleton in different lists, the second list repeating the singleton",
    "the place an extension was found at is remembered and tried first in the next list",
    [(X, "		let bytes = self.0.as_bytes();\n		let mut i = 0;\n		let mut starting = true;\n", """		use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
		static HINT: AtomicUsize = AtomicUsize::new(0);

		let bytes = self.0.as_bytes();
		let mut i = HINT.load(Relaxed);
		if i < 2
			|| i + 1 >= bytes.len()
			|| bytes[i - 1] != b'-'
			|| bytes[i] != singleton.0
			|| bytes[i + 1] != b'-'
		{
			i = 0
		}

		let mut starting = true;
"""), (X, "\t\t\t\t\tlet end = super::find_list_end(&self.0, i + 2, |_, segment| segment.len() > 1);\n", "\t\t\t\t\tHINT.store(i, Relaxed);\n\t\t\t\t\tlet end = super::find_list_end(&self.0, i + 2, |_, segment| segment.len() > 1);\n")],
    'let b = Singleton::new(b\'b\').unwrap(); let x = Extensions::new("a-xyz-b-one").unwrap(); let y = Extensions::new("b-xyz-b-two").unwrap();\nassert!(y.get(b).unwrap() == "b-xyz"); x.get(b); assert!(y.get(b).unwrap() == "b-xyz");')
cf("c25-cell", "C25", "sharing an iterator between threads", "the private use iterator counts its steps in a Cell, so it can no longer be shared",
    [(PU, "pub struct PrivateUseIter<'a> {\n\tdata: &'a str,\n\toffset: usize,\n}", "pub struct PrivateUseIter<'a> {\n\tdata: &'a str,\n\toffset: usize,\n\tsteps: core::cell::Cell<usize>,\n}"),
     (PU, "offset: 2, // start after the singleton\n", "offset: 2, // start after the singleton\n\t\t\tsteps: core::cell::Cell::new(0),\n"),
     (PU, "\t\t\tself.offset = end + 1;\n", "\t\t\tself.offset = end + 1;\n\t\t\tself.steps.set(self.steps.get() + 1);\n")],
    'fn sync<T: Sync + Send>() {} sync::<PrivateUseIter<\'static>>();')
cf("c25-raw", "C25", "handing the walk over extensions to another thread", "the extension list iterator holds a raw pointer, so it can no longer be sent",
    [(X, "pub struct ExtensionsIter<'a> {\n\tdata: &'a str,\n", "pub struct ExtensionsIter<'a> {\n\tdata: &'a str,\n\tend: core::marker::PhantomData<*const u8>,\n"),
     (X, "impl<'a> ExtensionsIter<'a> {\n\tfn new(data: &'a str) -> Self {\n\t\tSelf { data, offset: 0 }", "impl<'a> ExtensionsIter<'a> {\n\tfn new(data: &'a str) -> Self {\n\t\tSelf { data, end: core::marker::PhantomData, offset: 0 }")],
    'fn send<T: Send>() {} send::<ExtensionsIter<\'static>>();')
bug("c25-env", "C25", "an environment variable", "an environment variable changes how grandfathered tags print",
    [(GF, "		self.as_str().fmt(f)", """		#[cfg(feature = "std")]
		if std::env::var_os("LANGTAG_LOWERCASE").is_some() {
			for c in self.as_str().chars() {
				write!(f, "{}", c.to_ascii_lowercase())?;
			}

			return Ok(());
		}

		self.as_str().fmt(f)""")],
    'unsafe { std::env::set_var("LANGTAG_LOWERCASE", "1") }; assert_eq!(GrandfatheredLangTag::new("sgn-BE-FR").unwrap().to_string(), "sgn-BE-FR");')
bug("c25-last", "C25", "recognising the same grandfathered tag twice in a row and then another one of its length and first letters",
    "a tag seen twice in a row is taken for granted for the next text that looks alike",
    [(GF, "		for tag in &GRANDFATHERED {\n			if utils::case_insensitive_eq(tag.as_bytes(), bytes) {\n				return Ok(*tag);", """		use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
		static LAST: AtomicUsize = AtomicUsize::new(0);

		let last = LAST.load(Relaxed);
		if last >= 256 {
			let tag = GRANDFATHERED[last % 256];
			if tag.as_bytes().len() == bytes.len() && utils::case_insensitive_eq(&tag.as_bytes()[..4], &bytes[..4]) {
				return Ok(tag);
			}
		}

		for (i, tag) in GRANDFATHERED.iter().enumerate() {
			if utils::case_insensitive_eq(tag.as_bytes(), bytes) {
				LAST.store(if last == i { i + 256 } else { i }, Relaxed);
				return Ok(*tag);""")],
    'for s in ["i-tao", "i-tao", "i-tay"] { assert_eq!(GrandfatheredLangTag::new(s).unwrap().to_string(), s); }')
bug("c22-join", "C22", "a list of extensions in which an eight character subtag comes before the next singleton",
    "the recogniser of lists of extensions accepts no further extension after an eight character subtag",
    [(G, "			12u32 => match token {\n				'-' => 5u32,\n				_ => return false,\n			},\n			_ => return false,\n		};", "			12u32 => match token {\n				'-' => 2u32,\n				_ => return false,\n			},\n			_ => return false,\n		};")],
    'assert!(Extensions::new("a-bbbbbbbb-c-dd").is_ok());')
bug("c22-variants", "C22", "a list of variants that starts with an eight character variant", "nothing may follow a variant of eight characters",
    [(G, "			11u32 => match token {\n				'-' => 8u32,\n				_ => return false,\n			},\n			12u32 => match token {\n				'0'..='9' | 'A'..='Z' | 'a'..='z' => 13u32,", "			12u32 => match token {\n				'0'..='9' | 'A'..='Z' | 'a'..='z' => 13u32,")],
    'assert!(Variants::new("abcdefgh-abcde").is_ok());')

# -- C26 --------------------------------------------------------------------------------------
VNEXT = "\t\t\tself.offset = end + 1;\n\t\t\tSome(item)\n\t\t} else {\n\t\t\tNone\n\t\t}\n\t}\n}\n\nimpl<'a> DoubleEndedIterator for VariantsIter<'a> {"
VNEXTF = VNEXT.replace("\t}\n}\n\nimpl", "\t}\n%s}\n\nimpl")
bug("c26-nth", "C26", "nth on a variants iterator some of whose items were taken from the back",
    "VariantsIter::nth skips along the whole list and ignores where the back end is",
    [(V, VNEXT, VNEXTF % "\n\tfn nth(&mut self, n: usize) -> Option<Self::Item> {\n\t\tfor _ in 0..n {\n\t\t\tif self.offset >= self.data.len() {\n\t\t\t\treturn None;\n\t\t\t}\n\t\t\tself.offset = super::find_segment_end(self.data, self.offset) + 1;\n\t\t}\n\t\tif self.offset < self.data.len() {\n\t\t\tlet end = super::find_segment_end(self.data, self.offset);\n\t\t\tlet item = unsafe { Variant::new_unchecked(&self.data[self.offset..end]) };\n\t\t\tself.offset = end + 1;\n\t\t\tSome(item)\n\t\t} else {\n\t\t\tNone\n\t\t}\n\t}\n")],
    'let v = Variants::new("abcde-fghij-klmno").unwrap(); let mut i = v.iter(); i.next_back(); assert!(i.nth(2).is_none()); let mut i = v.iter(); assert!(i.nth(1).unwrap() == "fghij");')
bug("c26-hint", "C26", "the size hint of an iterator that has come to its end",
    "size_hint counts one item more for every remaining separator, also past the end",
    [(V, VNEXT, VNEXTF % "\n\tfn size_hint(&self) -> (usize, Option<usize>) {\n\t\t(1.min(self.data.len()), Some(self.data.len() / 4))\n\t}\n")],
    'let v = Variants::new("abcde").unwrap(); let mut i = v.iter(); i.next(); assert_eq!(i.size_hint().0, 0); assert!(v.iter().count() == 1);')
bug("c26-last", "C26", "the last of an extension's subtags when it has one character more than seven",
    "ExtensionIter::last looks back from the end no further than seven characters",
    [(X, "\t\t\tself.offset = end + 1;\n\t\t\tSome(item)\n\t\t} else {\n\t\t\tNone\n\t\t}\n\t}\n}\n\n/// List of extensions.", "\t\t\tself.offset = end + 1;\n\t\t\tSome(item)\n\t\t} else {\n\t\t\tNone\n\t\t}\n\t}\n\n\tfn last(self) -> Option<Self::Item> {\n\t\tif self.offset >= self.data.len() {\n\t\t\treturn None;\n\t\t}\n\t\tlet end = self.data.len();\n\t\tlet mut start = end;\n\t\twhile start > self.offset && end - start < 7 && self.data.as_bytes()[start - 1] != b'-' {\n\t\t\tstart -= 1;\n\t\t}\n\t\tSome(unsafe { ExtensionSubtag::new_unchecked(&self.data[start..end]) })\n\t}\n}\n\n/// List of extensions.")],
    'let e = Extension::new("a-bc-abcdefgh").unwrap(); assert!(e.iter().last().unwrap() == "abcdefgh"); let e = Extension::new("a-bc-abcdefg").unwrap(); assert!(e.iter().last().unwrap() == "abcdefg");')
bug("c26-count", "C26", "counting the private use subtags after some were taken",
    "PrivateUseIter::count counts the separators of the whole text",
    [("src/normal/private_use.rs", "\t\t\tself.offset = end + 1;\n\t\t\tSome(item)\n\t\t} else {\n\t\t\tNone\n\t\t}\n\t}\n}\n", "\t\t\tself.offset = end + 1;\n\t\t\tSome(item)\n\t\t} else {\n\t\t\tNone\n\t\t}\n\t}\n\n\tfn count(self) -> usize {\n\t\tself.data.bytes().filter(|b| *b == b'-').count()\n\t}\n}\n")],
    'let p = PrivateUse::new("x-a-b-c").unwrap(); assert_eq!(p.iter().count(), 3); let mut i = p.iter(); i.next(); assert_eq!(i.count(), 2);')
bug("c26-ne", "C26", "two values that differ in letter case", "!= on variants compares verbatim",
    [(V, "impl PartialEq for Variants {\n\tfn eq(&self, other: &Self) -> bool {\n\t\tutils::case_insensitive_eq(self.as_bytes(), other.as_bytes())\n\t}\n}", "impl PartialEq for Variants {\n\tfn eq(&self, other: &Self) -> bool {\n\t\tutils::case_insensitive_eq(self.as_bytes(), other.as_bytes())\n\t}\n\n\tfn ne(&self, other: &Self) -> bool {\n\t\tself.as_bytes() != other.as_bytes()\n\t}\n}")],
    'let (a, b) = (Variants::new("abcde").unwrap(), Variants::new("ABCDE").unwrap()); assert!(a == b); assert!(!(a != b));')
bug("c26-fold", "C26", "folding over the variants from the back",
    "rfold leaves out the first variant when it has four characters",
    [(V, "\t\t\tself.end = if start > 0 { start - 1 } else { 0 };\n\n\t\t\tSome(item)\n\t\t} else {\n\t\t\tNone\n\t\t}\n\t}\n", "\t\t\tself.end = if start > 0 { start - 1 } else { 0 };\n\n\t\t\tSome(item)\n\t\t} else {\n\t\t\tNone\n\t\t}\n\t}\n\n\tfn rfold<B, F>(mut self, init: B, mut f: F) -> B\n\twhere\n\t\tF: FnMut(B, Self::Item) -> B,\n\t{\n\t\tlet mut acc = init;\n\t\twhile self.end > self.offset + 4 {\n\t\t\tmatch self.next_back() {\n\t\t\t\tSome(v) => acc = f(acc, v),\n\t\t\t\tNone => break,\n\t\t\t}\n\t\t}\n\t\tacc\n\t}\n")],
    'let v = Variants::new("1abc-abcde").unwrap(); assert_eq!(v.iter().rfold(0, |n, _| n + 1), 2); assert_eq!(v.iter().rev().count(), 2);')
