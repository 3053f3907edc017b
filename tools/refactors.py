"""Edits that keep the behaviour: every check has to stay quiet on them (development tool)."""
import re
ALL = []
G, L, N, X, V = "src/grammar.rs", "src/lib.rs", "src/normal/mod.rs", "src/normal/extension.rs", "src/normal/variant.rs"
U, GF, PU = "src/utils.rs", "src/grandfathered.rs", "src/normal/private_use.rs"
LG, PR, EL, RG, SC = "src/normal/language/mod.rs", "src/normal/language/primary.rs", "src/normal/language/extlang.rs", "src/normal/region.rs", "src/normal/script.rs"


def body(f, sig):
    """The text of a function body, without the braces."""
    s = open("/repo/" + f).read()
    i = s.index(sig) + len(sig)
    i = s.index("{", i) + 1
    d, j = 1, i
    while d:
        d += {"{": 1, "}": -1}.get(s[j], 0)
        j += 1
    return sig, s[i : j - 1], s[s.index(sig) : j]


def re_fn(f, sig, new):
    sig, old, whole = body(f, sig)
    return (f, whole, whole[: whole.index("{", len(sig)) + 1] + "\n" + new + "\n}")


def ref(id, *edits, **kw):
    ALL.append(dict(id=id, edits=list(edits), **kw))


ref("eq-std", re_fn(U, "pub fn into_smallcase", "c.to_ascii_lowercase()"), re_fn(U, "pub fn case_insensitive_eq", "a.eq_ignore_ascii_case(b)"))
ref("eq-zip", re_fn(U, "pub fn case_insensitive_eq", "a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| into_smallcase(*x) == into_smallcase(*y))"))
ref("eq-zip2", re_fn(U, "pub fn case_insensitive_eq", "if a.len() != b.len() { return false; }\nfor (x, y) in a.iter().zip(b) { if !x.eq_ignore_ascii_case(y) { return false; } }\ntrue"))
ref("hash-write", re_fn(U, "pub fn case_insensitive_hash", "for b in bytes { hasher.write_u8(into_smallcase(*b)) }"))
ref("hash-map", re_fn(U, "pub fn case_insensitive_hash", "bytes.iter().map(|b| into_smallcase(*b)).for_each(|b| b.hash(hasher))"))
ref("hash-while", re_fn(U, "pub fn case_insensitive_hash", "let mut i = 0;\nwhile i < bytes.len() { into_smallcase(bytes[i]).hash(hasher); i += 1; }"))
ref("cmp-zip", re_fn(U, "pub fn case_insensitive_cmp", "for (x, y) in a.iter().zip(b) {\nmatch into_smallcase(*x).cmp(&into_smallcase(*y)) { Ordering::Equal => (), ord => return ord }\n}\nb.len().cmp(&a.len())"))
ref("cmp-min", re_fn(U, "pub fn case_insensitive_cmp", "let n = a.len().min(b.len());\nlet mut i = 0;\nwhile i < n {\nlet (x, y) = (into_smallcase(a[i]), into_smallcase(b[i]));\nif x < y { return Ordering::Less; }\nif x > y { return Ordering::Greater; }\ni += 1;\n}\nif a.len() == b.len() { Ordering::Equal } else if a.len() < b.len() { Ordering::Greater } else { Ordering::Less }"))
ref("cmp-get", re_fn(U, "pub fn case_insensitive_cmp", "let mut i = 0;\nloop {\nmatch (a.get(i), b.get(i)) {\n(None, None) => return Ordering::Equal,\n(None, Some(_)) => return Ordering::Greater,\n(Some(_), None) => return Ordering::Less,\n(Some(x), Some(y)) => match into_smallcase(*x).cmp(&into_smallcase(*y)) { Ordering::Equal => i += 1, ord => return ord },\n}\n}"))
ref("segend-pos", re_fn(N, "fn find_segment_end", "string.as_bytes()[offset..].iter().position(|&b| b == b'-').map_or(string.len(), |i| offset + i)"))
ref("segend-find", re_fn(N, "fn find_segment_end", "match string[offset..].find('-') { Some(i) => offset + i, None => string.len() }"))
ref("segend-for", re_fn(N, "fn find_segment_end", "let bytes = string.as_bytes();\nfor i in offset..bytes.len() { if bytes[i] == b'-' { return i; } }\nbytes.len().max(offset)"))
ref("segstart-rfind", re_fn(N, "fn find_segment_start", "string[..end].rfind('-').map_or(0, |i| i + 1)"))
ref("segstart-while", re_fn(N, "fn find_segment_start", "let bytes = string.as_bytes();\nlet mut i = end;\nwhile i > 0 && bytes[i - 1] != b'-' { i -= 1; }\ni"))
ref("segstart-rposition", re_fn(N, "fn find_segment_start", "string.as_bytes()[..end].iter().rposition(|b| *b == b'-').map_or(0, |i| i + 1)"))
ref("listend-find", re_fn(N, "fn find_list_end", """
	if offset > string.len() { return offset; }
	let mut end = offset;
	loop {
		let stop = find_segment_end(string, offset);
		if !f(offset, &string[offset..stop]) { return end; }
		end = stop;
		if stop == string.len() { return end; }
		offset = stop + 1;
	}"""))
ref("listend-split", re_fn(N, "fn find_list_end", """
	let Some(rest) = string.get(offset..) else { return offset };
	let mut end = offset;
	for segment in rest.split('-') {
		if !f(offset, segment) { return end; }
		end = offset + segment.len();
		offset = end + 1;
	}
	end"""))
ref("listend-helper", (N, "let subtag = &string[offset..i];\n\t\t\tif f(offset, subtag) {\n\t\t\t\tend = i;\n\t\t\t\toffset = i + 1;\n\t\t\t} else {\n\t\t\t\treturn end;\n\t\t\t}", "if !f(offset, &string[offset..i]) {\n\t\t\t\treturn end;\n\t\t\t}\n\t\t\toffset = i + 1;\n\t\t\tend = i;"))
ref("get-iter", re_fn(X, "pub fn get(", "self.iter().find(|e| e.singleton().unwrap().eq_ignore_ascii_case(&singleton.unwrap()))"))
ref("get-for", re_fn(X, "pub fn get(", "for e in self.iter() {\nif utils::into_smallcase(e.singleton().0) == utils::into_smallcase(singleton.0) { return Some(e); }\n}\nNone"))
ref("get-prev", re_fn(X, "pub fn get(", """let bytes = self.0.as_bytes();
		let wanted = utils::into_smallcase(singleton.0);
		let mut i = 0;
		while i + 1 < bytes.len() {
			if (i == 0 || bytes[i - 1] == b'-') && bytes[i + 1] == b'-' && utils::into_smallcase(bytes[i]) == wanted {
				let end = super::find_list_end(&self.0, i + 2, |_, segment| segment.len() >= 2);
				return Some(unsafe { Extension::new_unchecked(&self.0[i..end]) });
			}
			i += 1
		}
		None"""))
ref("gf-find", re_fn(GF, "fn try_from", "GRANDFATHERED.iter().find(|t| utils::case_insensitive_eq(t.as_bytes(), bytes)).copied().ok_or(InvalidGrandfatheredTag(bytes))"))
ref("gf-into", re_fn(GF, "fn try_from", "for tag in GRANDFATHERED.into_iter() { if tag.as_bytes().eq_ignore_ascii_case(bytes) { return Ok(tag); } }\nErr(InvalidGrandfatheredTag(bytes))"))
ref("gf-new", re_fn(GF, "pub fn new<T", "Self::try_from(t.as_ref()).map_err(|_| ()).or(Err(t))"))
ref("gf-pad", re_fn(GF, "fn fmt", "fmt::Display::fmt(self.as_str(), f)"))
ref("gf-lang", re_fn(GF, "pub fn language", """let text = match self {
				ArtLojban => "art",
				CelGaulish => "cel",
				NoBok | NoNyn => "no",
				ZhGuoyu | ZhHakka | ZhMin | ZhMinNan | ZhXiang => "zh",
				_ => return None,
			};
		Some(unsafe { Language::new_unchecked(text) })"""))
ref("sing-slice", re_fn(X, "pub fn from_string", "match str.as_bytes() { [b] => Self::new(*b).map_err(|_| InvalidSingleton(str)), _ => Err(InvalidSingleton(str)) }"))
ref("sing-chars", re_fn(X, "pub fn from_string", "let mut chars = str.chars();\nmatch (chars.next(), chars.next()) { (Some(c), None) => c.try_into().map_err(|_| InvalidSingleton(str)), _ => Err(InvalidSingleton(str)) }"))
ref("sing-new", re_fn(X, "pub fn new(c: u8)", "match c { b'x' | b'X' => Err(InvalidSingleton(c)), b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' => Ok(Self(c)), _ => Err(InvalidSingleton(c)) }"))
ref("sing-char", re_fn(X, "fn try_from(c: char)", "match u8::try_from(c) { Ok(b) => Self::new(b).map_err(|_| InvalidSingleton(c)), Err(_) => Err(InvalidSingleton(c)) }"))
ref("sing-char2", re_fn(X, "fn try_from(c: char)", "if c.is_ascii() { Self::new(c as u8).map_err(|_| InvalidSingleton(c)) } else { Err(InvalidSingleton(c)) }"))
ref("sing-eq", re_fn(X, "fn eq(&self, b: &char)", "char::from(self.0) == *b"))
ref("sing-disp", (X, "impl fmt::Display for Singleton {\n\tfn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n\t\t(self.0 as char).fmt(f)", "impl fmt::Display for Singleton {\n\tfn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {\n\t\tfmt::Display::fmt(&char::from(self.0), f)"))
ref("tag-match", re_fn(L, "pub fn variants", "match self.as_normal() { Some(n) => n.variants(), None => Variants::EMPTY }"),
    re_fn(L, "pub fn extensions", "if let Some(n) = self.as_normal() { n.extensions() } else { Extensions::EMPTY }"),
    re_fn(L, "pub fn script", "self.as_normal()?.script()"),
    re_fn(L, "pub fn private_use(&self)", "match self.as_typed() { TypedLangTag::Normal(n) => n.private_use(), _ => None }"))
ref("tag-kind", re_fn(L, "pub fn language(&self)", "self.as_normal().map(NormalLangTag::language).or_else(|| self.as_grandfathered().and_then(|g| g.language()))"),
    re_fn(L, "pub fn kind(&self) -> Kind {\n\t\tself", "match self.as_typed() { TypedLangTag::Normal(_) => Kind::Normal, TypedLangTag::PrivateUse(_) => Kind::PrivateUse, TypedLangTag::Grandfathered(_) => Kind::Grandfathered }") if False else (L, "self.as_typed().kind()", "match self.as_typed() { TypedLangTag::Normal(_) => Kind::Normal, TypedLangTag::PrivateUse(_) => Kind::PrivateUse, TypedLangTag::Grandfathered(_) => Kind::Grandfathered }"))
ref("tag-typed", re_fn(L, "pub fn as_typed", "if let Some(t) = self.as_normal() { return TypedLangTag::Normal(t); }\nif let Some(t) = self.as_private_use() { return TypedLangTag::PrivateUse(t); }\nmatch self.as_grandfathered() { Some(g) => TypedLangTag::Grandfathered(g), None => unreachable!() }"))
ref("tag-typed2", re_fn(L, "pub fn as_typed", "match PrivateUseLangTag::new(&self.0) {\nOk(t) => TypedLangTag::PrivateUse(t),\nErr(_) => match NormalLangTag::new(&self.0) { Ok(t) => TypedLangTag::Normal(t), Err(_) => TypedLangTag::Grandfathered(self.as_grandfathered().expect(\"grandfathered\")) }\n}"))
ref("script-seg", re_fn(N, "fn script_range", """let language_end = self.language_end();
		let offset = language_end + 1;
		if offset < self.0.len() {
			let end = find_segment_end(&self.0, offset);
			if Script::new(&self.0[offset..end]).is_ok() { return Ok(offset..end); }
		}
		Err(language_end)"""),
    re_fn(N, "fn region_range", """let script_end = self.script_range().map_or_else(|i| i, |r| r.end);
		match self.0.get(script_end + 1..) {
			Some(rest) => {
				let first = rest.split('-').next().unwrap_or_default();
				if Region::new(first).is_ok() { Ok(script_end + 1..script_end + 1 + first.len()) } else { Err(script_end) }
			}
			None => Err(script_end),
		}"""))
ref("closures", (N, "find_list_end(&self.0, offset, |_, segment| Variant::new(segment).is_ok())", "find_list_end(&self.0, offset, |_, segment| segment.len() >= 4)"),
    (N, "Singleton::from_string(segment).is_ok() || ExtensionSubtag::new(segment).is_ok()", "!segment.eq_ignore_ascii_case(\"x\")"))
ref("closures2", (N, "i == offset && Region::new(segment).is_ok()", "i == offset && matches!(segment.len(), 2 | 3)"),
    (N, "i == offset && Script::new(segment).is_ok()", "i == offset && segment.len() == 4 && segment.bytes().all(|b| b.is_ascii_alphabetic())"))
ref("helper-range", (N, "\tfn script_range(&self)", "\tfn optional(&self, previous: usize, mut accept: impl FnMut(&str) -> bool) -> Result<Range<usize>, usize> {\n\t\tlet offset = previous + 1;\n\t\tlet end = find_list_end(&self.0, offset, |i, segment| i == offset && accept(segment));\n\t\tif end != offset { Ok(offset..end) } else { Err(previous) }\n\t}\n\n\tfn script_range(&self)"),
    re_fn(N, "fn region_range", "let script_end = match self.script_range() { Ok(range) => range.end, Err(i) => i };\nself.optional(script_end, |s| Region::new(s).is_ok())"))
ref("script-helper", re_fn(N, "fn script_range", "let language_end = self.language_end();\nself.single_range(language_end, |s| Script::new(s).is_ok())"),
    re_fn(N, "fn region_range", "let script_end = match self.script_range() { Ok(range) => range.end, Err(i) => i };\nself.single_range(script_end, |s| Region::new(s).is_ok())"),
    (N, "\tfn language_end(&self)", "\tfn single_range(&self, previous: usize, accept: fn(&str) -> bool) -> Result<Range<usize>, usize> {\n\t\tlet offset = previous + 1;\n\t\tif offset >= self.0.len() { return Err(previous); }\n\t\tlet end = find_segment_end(&self.0, offset);\n\t\tif accept(&self.0[offset..end]) { Ok(offset..end) } else { Err(previous) }\n\t}\n\n\tfn language_end(&self)"))
ref("pu-get", re_fn(N, "pub fn private_use(&self)", "let i = self.private_use_offset()?;\nSome(unsafe { PrivateUse::new_unchecked(self.0.get_unchecked(i..)) })"),
    re_fn(N, "pub fn private_use_subtags", "self.private_use().map(PrivateUse::iter).unwrap_or_default()"))
ref("lang-find", re_fn(LG, "pub fn primary", "let end = self.0.find('-').unwrap_or(self.0.len());\nunsafe { PrimaryLanguage::new_unchecked(&self.0[..end]) }"),
    re_fn(LG, "pub fn extension(&self)", "let i = self.0.find('-')?;\nSome(unsafe { LanguageExtension::new_unchecked(&self.0[i + 1..]) })"))
ref("lang-split", re_fn(LG, "pub fn primary", "let primary = self.0.split('-').next().unwrap_or(&self.0);\nunsafe { PrimaryLanguage::new_unchecked(primary) }"),
    re_fn(LG, "pub fn extension(&self)", "match self.0.split_once('-') { Some((_, ext)) => Some(unsafe { LanguageExtension::new_unchecked(ext) }), None => None }"),
    re_fn(LG, "pub fn extension_subtags", "match self.extension() { Some(e) => e.iter(), None => LanguageExtensionIter::empty() }"))
ref("lang-bytes", re_fn(LG, "pub fn primary", "let bytes = self.0.as_bytes();\nlet mut i = 0;\nwhile i < bytes.len() && bytes[i] != b'-' { i += 1; }\nunsafe { PrimaryLanguage::new_unchecked(&self.0[..i]) }"))
ref("var-find", re_fn(V, "fn next(&mut self)", """if self.offset >= self.end { return None; }
		let rest = &self.data[self.offset..self.end];
		let len = rest.find('-').unwrap_or(rest.len());
		let item = unsafe { Variant::new_unchecked(&rest[..len]) };
		self.offset += len + 1;
		Some(item)"""),
    re_fn(V, "fn next_back", """if self.offset >= self.end { return None; }
		match self.data[self.offset..self.end].rfind('-') {
			Some(i) => {
				let item = unsafe { Variant::new_unchecked(&self.data[self.offset + i + 1..self.end]) };
				self.end = self.offset + i;
				Some(item)
			}
			None => {
				let item = unsafe { Variant::new_unchecked(&self.data[self.offset..self.end]) };
				self.end = self.offset;
				Some(item)
			}
		}"""))
ref("var-sat", (V, "self.end = if start > 0 { start - 1 } else { 0 };", "self.end = start.saturating_sub(1);"), re_fn(V, "pub fn last", "self.iter().last()") if False else (V, "self.iter().next_back()", "{ let mut i = self.iter(); i.next_back() }"))
ref("var-first", re_fn(V, "pub fn first", "if self.0.is_empty() { None } else { let end = super::find_segment_end(&self.0, 0); Some(unsafe { Variant::new_unchecked(&self.0[..end]) }) }"),
    re_fn(V, "pub fn last", "if self.0.is_empty() { None } else { let start = super::find_segment_start(&self.0, self.0.len()); Some(unsafe { Variant::new_unchecked(&self.0[start..]) }) }"))
ref("pu-rest", re_fn(PU, "fn next(&mut self)", """if self.offset >= self.data.len() { return None; }
		let rest = &self.data[self.offset..];
		let (item, len) = match rest.split_once('-') { Some((a, _)) => (a, a.len() + 1), None => (rest, rest.len()) };
		self.offset += len;
		Some(unsafe { PrivateUseSubtag::new_unchecked(item) })"""))
ref("pu-get2", re_fn(PU, "fn next(&mut self)", """let rest = self.data.get(self.offset..)?;
		if rest.is_empty() { return None; }
		let item = rest.split('-').next()?;
		self.offset += item.len() + 1;
		Some(unsafe { PrivateUseSubtag::new_unchecked(item) })"""))
ref("extiter-len", (X, "let end = super::find_list_end(self.data, offset, |_, segment| {\n\t\t\t\tExtensionSubtag::new(segment).is_ok()\n\t\t\t});", "let end = super::find_list_end(self.data, offset, |_, segment| segment.len() > 1);"))
ref("extiter-scan", re_fn(X, "impl<'a> Iterator for ExtensionsIter<'a> {\n\ttype Item = &'a Extension;\n\n\tfn next(&mut self)", """let bytes = self.data.as_bytes();
		if self.offset >= bytes.len() { return None; }
		let start = self.offset;
		let mut end = start + 1;
		while end < bytes.len() && !(bytes[end] == b'-' && end + 2 < bytes.len() && bytes[end + 2] == b'-') { end += 1; }
		self.offset = end + 1;
		Some(unsafe { Extension::new_unchecked(&self.data[start..end]) })"""))
ref("macro-impls", *[(f, s[s.index("impl PartialEq for %s {" % t):s.index("impl Hash for %s {" % t)], "crate::utils::case_insensitive!(%s);\n\n" % t) for f, t in ((SC, "Script"), (RG, "Region")) for s in [open("/repo/" + f).read()]],
    (U, "pub fn into_smallcase", "macro_rules! case_insensitive {\n\t($t:ty) => {\n\t\timpl PartialEq for $t {\n\t\t\tfn eq(&self, other: &Self) -> bool { $crate::utils::case_insensitive_eq(self.as_bytes(), other.as_bytes()) }\n\t\t}\n\t\timpl Eq for $t {}\n\t\timpl PartialOrd for $t {\n\t\t\tfn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> { Some(self.cmp(other)) }\n\t\t}\n\t\timpl Ord for $t {\n\t\t\tfn cmp(&self, other: &Self) -> core::cmp::Ordering { $crate::utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes()) }\n\t\t}\n\t};\n}\npub(crate) use case_insensitive;\n\npub fn into_smallcase"))
ref("gram-pat", (G, "'0'..='9' | 'A'..='Z' | 'a'..='z' =>", "'a'..='z' | 'A'..='Z' | '0'..='9' =>"), (G, "'A'..='Z' | 'a'..='z' =>", "_ if token.is_ascii_alphabetic() =>"), many=True)
ref("gram-acc", (G, "matches!(self.state, 7u32 | 8u32 | 9u32 | 10u32 | 12u32)", "match self.state { 7..=10 | 12 => true, _ => false }"))
ref("layout", re_fn(N, "fn variants_range", """let (_, _, _, variants_end) = self.ends();
		let region_end = self.ends().2;
		if variants_end > region_end { region_end + 1..variants_end } else { region_end..region_end }"""),
    (N, "\tfn language_end(&self)", """	/// Ends of the language, script, region and variants.
	fn ends(&self) -> (usize, usize, usize, usize) {
		let language = self.language_end();
		let script = match self.script_range() { Ok(r) => r.end, Err(i) => i };
		let region = match self.region_range() { Ok(r) => r.end, Err(i) => i };
		let mut variants = region;
		while variants < self.0.len() {
			let next = find_segment_end(&self.0, variants + 1);
			if Variant::new(&self.0[variants + 1..next]).is_err() { break; }
			variants = next;
		}
		(language, script, region, variants)
	}

	fn language_end(&self)"""))
# second batch, in the manner of somebody asked for behaviour-preserving edits
ref("eq-slices", re_fn(U, "pub fn case_insensitive_eq", "let (mut a, mut b) = (a, b);\nloop {\nmatch (a, b) {\n([], []) => return true,\n([x, xs @ ..], [y, ys @ ..]) if into_smallcase(*x) == into_smallcase(*y) => { a = xs; b = ys; }\n_ => return false,\n}\n}"))
ref("eq-early", re_fn(U, "pub fn case_insensitive_eq", "if a.len() != b.len() {\nreturn false;\n}\nlet mut i = 0;\nwhile i < a.len() {\nlet left = into_smallcase(a[i]);\nlet right = into_smallcase(b[i]);\nif left != right {\nreturn false;\n}\ni += 1;\n}\ntrue"))
ref("eq-any", re_fn(U, "pub fn case_insensitive_eq", "a.len() == b.len() && !(0..a.len()).any(|i| into_smallcase(a[i]) != into_smallcase(b[i]))"))
ref("eq-enum", re_fn(U, "pub fn case_insensitive_eq", "if a.len() != b.len() { return false; }\nfor (i, &c) in a.iter().enumerate() {\nif into_smallcase(c) != into_smallcase(b[i]) { return false; }\n}\ntrue"))
ref("eq-rev", re_fn(U, "pub fn case_insensitive_eq", "if a.len() != b.len() { return false; }\nlet mut i = a.len();\nwhile i > 0 {\ni -= 1;\nif into_smallcase(a[i]) != into_smallcase(b[i]) { return false; }\n}\ntrue"))
ref("eq-iters", re_fn(U, "pub fn case_insensitive_eq", "let mut left = a.iter().map(|c| into_smallcase(*c));\nlet mut right = b.iter().map(|c| into_smallcase(*c));\nloop {\nmatch (left.next(), right.next()) {\n(None, None) => return true,\n(Some(x), Some(y)) if x == y => (),\n_ => return false,\n}\n}"))
ref("eq-itereq", re_fn(U, "pub fn case_insensitive_eq", "a.iter().copied().map(into_smallcase).eq(b.iter().copied().map(into_smallcase))"))
ref("lower-match", re_fn(U, "pub fn into_smallcase", "match c { b'A'..=b'Z' => c - b'A' + b'a', _ => c }"))
ref("lower-or", re_fn(U, "pub fn into_smallcase", "let upper = (b'A'..=b'Z').contains(&c);\nc | (u8::from(upper) << 5)"))
ref("cmp-iters", re_fn(U, "pub fn case_insensitive_cmp", "let mut x = a.iter();\nlet mut y = b.iter();\nloop {\nmatch (x.next(), y.next()) {\n(Some(l), Some(r)) => {\nlet ord = into_smallcase(*l).cmp(&into_smallcase(*r));\nif ord != Ordering::Equal { return ord; }\n}\n(Some(_), None) => return Ordering::Less,\n(None, Some(_)) => return Ordering::Greater,\n(None, None) => return Ordering::Equal,\n}\n}"))
ref("cmp-find", re_fn(U, "pub fn case_insensitive_cmp", "a.iter().zip(b).map(|(x, y)| into_smallcase(*x).cmp(&into_smallcase(*y))).find(|o| o.is_ne()).unwrap_or_else(|| b.len().cmp(&a.len()))"))
ref("cmp-nest", re_fn(U, "pub fn case_insensitive_cmp", "let mut i = 0;\nwhile i < a.len() && i < b.len() {\nlet ord = into_smallcase(a[i]).cmp(&into_smallcase(b[i]));\nif !ord.is_eq() { return ord; }\ni += 1;\n}\nmatch (i < a.len(), i < b.len()) {\n(false, true) => Ordering::Greater,\n(true, false) => Ordering::Less,\n_ => Ordering::Equal,\n}"))
ref("cmp-enum", re_fn(U, "pub fn case_insensitive_cmp", "for (i, x) in a.iter().enumerate() {\nlet Some(y) = b.get(i) else { return Ordering::Less };\nlet ord = into_smallcase(*x).cmp(&into_smallcase(*y));\nif ord.is_ne() { return ord; }\n}\nif a.len() < b.len() { Ordering::Greater } else { Ordering::Equal }"))
ref("segend-skip", re_fn(N, "fn find_segment_end", "for (i, b) in string.bytes().enumerate().skip(offset) { if b == b'-' { return i; } }\nstring.len().max(offset)"))
ref("segend-count", re_fn(N, "fn find_segment_end", "offset + string.as_bytes()[offset..].iter().take_while(|b| **b != b'-').count()"))
ref("segend-getloop", re_fn(N, "fn find_segment_end", "let bytes = string.as_bytes();\nlet mut i = offset;\nwhile let Some(&b) = bytes.get(i) {\nif b == b'-' { break; }\ni += 1;\n}\ni"))
ref("segend-loop", re_fn(N, "fn find_segment_end", "let bytes = string.as_bytes();\nlet mut end = offset;\nloop {\nif end >= bytes.len() || bytes[end] == HYPHEN { return end; }\nend += 1;\n}"), (N, "fn find_segment_end", "const HYPHEN: u8 = b'-';\n\nfn find_segment_end"))
ref("segstart-rev", re_fn(N, "fn find_segment_start", "let bytes = string.as_bytes();\nfor i in (0..end).rev() { if bytes[i] == b'-' { return i + 1; } }\n0"))
ref("segstart-rsplit", re_fn(N, "fn find_segment_start", "match string[..end].rsplit_once('-') { Some((before, _)) => before.len() + 1, None => 0 }"))
ref("listend-call", re_fn(N, "fn find_list_end", """
	let len = string.len();
	if offset > len { return offset; }
	let mut end = offset;
	loop {
		let next = find_segment_end(string, offset);
		let segment = &string[offset..next];
		if !f(offset, segment) { break end; }
		if next >= len { break len; }
		end = next;
		offset = next + 1;
	}"""))
ref("listend-bytes", re_fn(N, "fn find_list_end", """
	let bytes = string.as_bytes();
	if offset > bytes.len() { return offset; }
	let mut end = offset;
	for (i, &b) in bytes.iter().enumerate().skip(offset) {
		if b != b'-' { continue; }
		if !f(offset, &string[offset..i]) { return end; }
		end = i;
		offset = i + 1;
	}
	if f(offset, &string[offset..]) { bytes.len() } else { end }"""))
ref("listend-inclusive", re_fn(N, "fn find_list_end", """
	let bytes = string.as_bytes();
	if offset > bytes.len() { return offset; }
	let mut end = offset;
	for i in offset..=bytes.len() {
		if i == bytes.len() || bytes[i] == b'-' {
			if !f(offset, &string[offset..i]) { return end; }
			end = i;
			offset = i + 1;
		}
	}
	end"""))
ref("norm-then", re_fn(N, "fn private_use_offset", "let end = self.extensions_range().end;\n(end < self.0.len()).then(|| end + 1)"),
    re_fn(N, "fn extensions_range", """let start = self.variants_range().end;
		let offset = start + 1;
		match find_list_end(&self.0, offset, |_, s| Singleton::from_string(s).is_ok() || ExtensionSubtag::new(s).is_ok()) {
			end if end == offset => start..start,
			end => offset..end,
		}"""),
    re_fn(N, "pub fn script(&self)", "let range = self.script_range().ok()?;\nSome(unsafe { Script::new_unchecked(&self.0[range]) })"),
    re_fn(N, "pub fn region(&self)", "match self.region_range() { Ok(r) => unsafe { Some(Region::new_unchecked(&self.0[r.start..r.end])) }, Err(_) => None }"))
ref("norm-let", re_fn(N, "pub fn language(&self)", "let end = self.language_end();\nlet text = &self.0[..end];\nunsafe { Language::new_unchecked(text) }"),
    re_fn(N, "pub fn variants(&self)", "let Range { start, end } = self.variants_range();\nlet text = &self.0[start..end];\nunsafe { Variants::new_unchecked(text) }"),
    re_fn(N, "pub fn extensions(&self)", "let range = self.extensions_range();\nif range.is_empty() { return Extensions::EMPTY; }\nunsafe { Extensions::new_unchecked(&self.0[range]) }"))
ref("norm-checked", re_fn(N, "pub fn language(&self)", "let text = &self.0[..self.language_end()];\nLanguage::new(text).ok().expect(\"valid language\")"),
    re_fn(N, "pub fn script(&self)", "self.script_range().ok().and_then(|range| Script::new(&self.0[range]).ok())"),
    re_fn(N, "pub fn private_use(&self)", "let offset = self.private_use_offset()?;\ndebug_assert!(PrivateUse::new(&self.0[offset..]).is_ok());\nSome(unsafe { PrivateUse::new_unchecked(&self.0[offset..]) })"))
ref("norm-splitat", re_fn(N, "pub fn language(&self)", "let (language, _) = self.0.split_at(self.language_end());\nunsafe { Language::new_unchecked(language) }"),
    re_fn(N, "pub fn private_use(&self)", "self.private_use_offset().map(|i| self.0.split_at(i).1).map(|s| unsafe { PrivateUse::new_unchecked(s) })"))
ref("norm-helper", (N, "\tfn language_end(&self)", "\tfn range_or_end(range: Result<Range<usize>, usize>) -> usize {\n\t\trange.map(|r| r.end).unwrap_or_else(|end| end)\n\t}\n\n\tfn language_end(&self)"),
    (N, "\t\tlet script_end = match self.script_range() {\n\t\t\tOk(range) => range.end,\n\t\t\tErr(i) => i,\n\t\t};\n", "\t\tlet script_end = Self::range_or_end(self.script_range());\n"),
    (N, "\t\tlet region_end = match self.region_range() {\n\t\t\tOk(range) => range.end,\n\t\t\tErr(i) => i,\n\t\t};\n", "\t\tlet region_end = Self::range_or_end(self.region_range());\n"))
ref("norm-extscan", re_fn(N, "fn private_use_offset", """let bytes = self.0.as_bytes();
		let mut i = 0;
		while i + 2 < bytes.len() {
			if bytes[i] == b'-' && bytes[i + 1].eq_ignore_ascii_case(&b'x') && bytes[i + 2] == b'-' { return Some(i + 1); }
			i += 1;
		}
		None"""))
ref("get-split", re_fn(X, "pub fn get(", """let wanted = utils::into_smallcase(singleton.0);
		let mut offset = 0;
		for segment in self.0.split('-') {
			if let [c] = segment.as_bytes() {
				if utils::into_smallcase(*c) == wanted {
					let end = super::find_list_end(&self.0, offset + 2, |_, s| s.len() > 1);
					return Some(unsafe { Extension::new_unchecked(&self.0[offset..end]) });
				}
			}
			offset += segment.len() + 1;
		}
		None"""))
ref("get-seg", re_fn(X, "pub fn get(", """let bytes = self.0.as_bytes();
		let mut start = 0;
		while start < bytes.len() {
			let end = super::find_segment_end(&self.0, start);
			if end - start == 1 && bytes[start].eq_ignore_ascii_case(&singleton.0) {
				let end = super::find_list_end(&self.0, end + 1, |_, segment| segment.len() > 1);
				return Some(unsafe { Extension::new_unchecked(&self.0[start..end]) });
			}
			start = end + 1;
		}
		None"""))
ref("get-helper", (X, "\t\t\t\tif utils::into_smallcase(bytes[i]) == utils::into_smallcase(singleton.0)\n\t\t\t\t\t&& bytes[i + 1] == b'-'\n\t\t\t\t{\n", "\t\t\t\tif self.starts_at(i, singleton) {\n"),
    (X, "\tpub fn get(&self, singleton", "\tfn starts_at(&self, i: usize, singleton: Singleton) -> bool {\n\t\tmatch self.0.as_bytes()[i..] {\n\t\t\t[c, b'-', ..] => c.eq_ignore_ascii_case(&singleton.0),\n\t\t\t_ => false,\n\t\t}\n\t}\n\n\tpub fn get(&self, singleton"))
ref("get-flag", re_fn(X, "pub fn get(", """let bytes = self.0.as_bytes();
		let singleton = utils::into_smallcase(singleton.0);
		let mut starting = true;
		for (i, pair) in bytes.windows(2).enumerate() {
			if starting && pair[1] == b'-' && utils::into_smallcase(pair[0]) == singleton {
				let end = super::find_list_end(&self.0, i + 2, |_, segment| segment.len() > 1);
				return Some(unsafe { Extension::new_unchecked(&self.0[i..end]) });
			}
			starting = pair[0] == b'-';
		}
		None"""), (X, "pub fn iter_extension", "pub fn iter_extension"))
ref("ext-helper", (X, "\t\t\tlet offset = self.offset + 2; // skip singleton;\n\t\t\tlet end = super::find_list_end(self.data, offset, |_, segment| {\n\t\t\t\tExtensionSubtag::new(segment).is_ok()\n\t\t\t});\n", "\t\t\tlet end = subtags_end(self.data, self.offset + 2);\n"),
    (X, "let end = super::find_list_end(&self.0, i + 2, |_, segment| segment.len() > 1);", "let end = subtags_end(&self.0, i + 2);"),
    (X, "/// Single extension and its subtags.\n", "/// End of the subtags that start at `offset`.\nfn subtags_end(data: &str, offset: usize) -> usize {\n\tsuper::find_list_end(data, offset, |_, segment| ExtensionSubtag::new(segment).is_ok())\n}\n\n/// Single extension and its subtags.\n"))
ref("ext-iterext", re_fn(X, "pub fn iter_extension", "match self.get(singleton) { Some(e) => e.iter(), None => ExtensionIter::empty() }"),
    re_fn(X, "pub fn singleton(&self)", "let [first, ..] = self.0.as_bytes() else { unreachable!() };\nSingleton(*first)"))
ref("iter-guard", re_fn(X, "impl<'a> Iterator for ExtensionIter<'a> {\n\ttype Item = &'a ExtensionSubtag;\n\n\tfn next(&mut self)", "if self.offset >= self.data.len() { return None; }\nlet start = self.offset;\nlet end = super::find_segment_end(self.data, start);\nself.offset = end + 1;\nSome(unsafe { ExtensionSubtag::new_unchecked(&self.data[start..end]) })"),
    re_fn(EL, "fn next(&mut self)", "let start = self.offset;\n(start < self.data.len()).then(|| {\nlet end = super::super::find_segment_end(self.data, start);\nself.offset = end + 1;\nunsafe { ExtendedLangTag::new_unchecked(&self.data[start..end]) }\n})"))
ref("iter-rest", (EL, "pub struct LanguageExtensionIter<'a> {\n\tdata: &'a str,\n\toffset: usize,\n}", "pub struct LanguageExtensionIter<'a> {\n\trest: &'a str,\n}"),
    (EL, "Self { data, offset: 0 }", "Self { rest: data }"),
    re_fn(EL, "fn next(&mut self)", "if self.rest.is_empty() { return None; }\nlet (item, rest) = self.rest.split_once('-').unwrap_or((self.rest, \"\"));\nself.rest = rest;\nSome(unsafe { ExtendedLangTag::new_unchecked(item) })"))
ref("iter-opt", (PU, "pub struct PrivateUseIter<'a> {\n\tdata: &'a str,\n\toffset: usize,\n}", "pub struct PrivateUseIter<'a> {\n\trest: Option<&'a str>,\n}"),
    (PU, "Self {\n\t\t\tdata,\n\t\t\toffset: 2, // start after the singleton\n\t\t}", "Self { rest: data.get(2..) }"),
    re_fn(PU, "fn next(&mut self)", "let rest = self.rest?;\nlet item = match rest.split_once('-') {\nSome((item, rest)) => { self.rest = Some(rest); item }\nNone => { self.rest = None; rest }\n};\nSome(unsafe { PrivateUseSubtag::new_unchecked(item) })"))
ref("iter-split", (PU, "#[derive(Default)]\npub struct PrivateUseIter<'a> {\n\tdata: &'a str,\n\toffset: usize,\n}", "#[derive(Default)]\npub struct PrivateUseIter<'a> {\n\tsubtags: Option<core::str::Split<'a, char>>,\n}"),
    (PU, "Self {\n\t\t\tdata,\n\t\t\toffset: 2, // start after the singleton\n\t\t}", "Self { subtags: Some(data[2..].split('-')) }"),
    re_fn(PU, "fn next(&mut self)", "let item = self.subtags.as_mut()?.next()?;\nSome(unsafe { PrivateUseSubtag::new_unchecked(item) })"))
ref("var-rest", (V, "pub struct VariantsIter<'a> {\n\tdata: &'a str,\n\toffset: usize,\n\tend: usize,\n}", "pub struct VariantsIter<'a> {\n\tdata: &'a str,\n}"),
    (V, "Self {\n\t\t\tdata,\n\t\t\toffset: 0,\n\t\t\tend: data.len(),\n\t\t}", "Self { data }"),
    re_fn(V, "fn next(&mut self)", "if self.data.is_empty() { return None; }\nlet item = match self.data.find('-') {\nSome(i) => { let item = &self.data[..i]; self.data = &self.data[i + 1..]; item }\nNone => core::mem::take(&mut self.data),\n};\nSome(unsafe { Variant::new_unchecked(item) })"),
    re_fn(V, "fn next_back", "if self.data.is_empty() { return None; }\nlet item = match self.data.rsplit_once('-') {\nSome((rest, item)) => { self.data = rest; item }\nNone => core::mem::take(&mut self.data),\n};\nSome(unsafe { Variant::new_unchecked(item) })"))
ref("var-guard", re_fn(V, "fn next(&mut self)", "let start = self.offset;\nif start >= self.end { return None; }\nlet end = super::find_segment_end(self.data, start).min(self.end);\nself.offset = end + 1;\nSome(unsafe { Variant::new_unchecked(&self.data[start..end]) })"),
    re_fn(V, "fn next_back", "if self.offset >= self.end { return None; }\nlet start = super::find_segment_start(self.data, self.end);\nlet end = core::mem::replace(&mut self.end, start.saturating_sub(1));\nSome(unsafe { Variant::new_unchecked(&self.data[start..end]) })"))
ref("var-last", (V, "self.iter().next_back()", "self.iter().last()"), (V, "self.iter().next()", "self.iter().nth(0)"))
ref("lang-pos", re_fn(LG, "pub fn primary", "let bytes = self.0.as_bytes();\nlet end = bytes.iter().position(|b| *b == b'-').unwrap_or(bytes.len());\nunsafe { PrimaryLanguage::new_unchecked(&self.0[..end]) }"),
    re_fn(LG, "pub fn extension(&self)", "let primary = self.primary().as_str();\nself.0.get(primary.len() + 1..).map(|ext| unsafe { LanguageExtension::new_unchecked(ext) })"))
ref("lang-strip", re_fn(LG, "pub fn extension(&self)", "let primary = self.primary().as_str();\nlet ext = self.0.strip_prefix(primary)?.strip_prefix('-')?;\nSome(unsafe { LanguageExtension::new_unchecked(ext) })"))
ref("lang-map", re_fn(LG, "pub fn primary", "let primary = self.0.split_once('-').map_or(&self.0, |(primary, _)| primary);\nunsafe { PrimaryLanguage::new_unchecked(primary) }"),
    re_fn(LG, "pub fn extension_subtags", "self.extension().map_or_else(LanguageExtensionIter::empty, |e| e.iter())"))
ref("lang-splitn", re_fn(LG, "pub fn primary", "let mut parts = self.0.splitn(2, '-');\nlet primary = parts.next().unwrap_or(\"\");\nunsafe { PrimaryLanguage::new_unchecked(primary) }"),
    re_fn(LG, "pub fn extension(&self)", "let mut parts = self.0.splitn(2, '-');\nparts.next();\nparts.next().map(|ext| unsafe { LanguageExtension::new_unchecked(ext) })"))
ref("tag-question", re_fn(L, "pub fn region(&self)", "let normal = self.as_normal()?;\nnormal.region()"),
    re_fn(L, "pub fn variants", "self.as_normal().map_or(Variants::EMPTY, |t| t.variants())"),
    re_fn(L, "pub fn private_use_subtags", "match self.private_use() { Some(p) => p.iter(), None => PrivateUseIter::default() }"),
    re_fn(L, "pub fn is_normal(&self) -> bool {\n\t\tself", "X") if False else (L, "self.as_normal().is_some()", "NormalLangTag::new(&self.0).is_ok()"))
ref("tag-lang", re_fn(L, "pub fn language(&self)", "if let Some(t) = self.as_normal() { return Some(t.language()); }\nself.as_grandfathered()?.language()"))
ref("tag-bytes", re_fn(L, "pub fn is_private_use", "matches!(self.0.as_bytes(), [b'x' | b'X', b'-', ..])"),
    re_fn(L, "pub fn as_private_use", "self.is_private_use().then(|| unsafe { PrivateUseLangTag::new_unchecked(&self.0) })"))
ref("gf-position", re_fn(GF, "fn try_from", "match GRANDFATHERED.iter().position(|t| utils::case_insensitive_eq(t.as_bytes(), bytes)) { Some(i) => Ok(GRANDFATHERED[i]), None => Err(InvalidGrandfatheredTag(bytes)) }"))
ref("gf-index", re_fn(GF, "fn try_from", "let mut i = 0;\nwhile i < GRANDFATHERED.len() {\nlet tag = GRANDFATHERED[i];\nif utils::case_insensitive_eq(bytes, tag.as_bytes()) { return Ok(tag); }\ni += 1;\n}\nErr(InvalidGrandfatheredTag(bytes))"))
ref("gf-filter", re_fn(GF, "fn try_from", "GRANDFATHERED.iter().copied().filter(|t| t.as_bytes().len() == bytes.len()).find(|t| utils::case_insensitive_eq(t.as_bytes(), bytes)).ok_or(InvalidGrandfatheredTag(bytes))"))
ref("gf-any", re_fn(GF, "fn try_from", "for &tag in GRANDFATHERED.iter().rev() {\nif tag.as_str().as_bytes().eq_ignore_ascii_case(bytes) { return Ok(tag); }\n}\nErr(InvalidGrandfatheredTag(bytes))"))
ref("sing-match1", re_fn(X, "pub fn from_string", "let &[c] = str.as_bytes() else { return Err(InvalidSingleton(str)) };\nSelf::new(c).map_err(|_| InvalidSingleton(str))"))
ref("sing-try", re_fn(X, "pub fn new(c: u8)", "if !c.is_ascii_alphanumeric() || c.eq_ignore_ascii_case(&b'x') { return Err(InvalidSingleton(c)); }\nOk(Self(c))"),
    re_fn(X, "fn try_from(c: char)", "u8::try_from(u32::from(c)).ok().and_then(|b| Self::new(b).ok()).ok_or(InvalidSingleton(c))"))
ref("sing-parse", re_fn(X, "pub fn from_string", "let mut bytes = str.bytes();\nif let (Some(c), None) = (bytes.next(), bytes.next()) {\nif let Ok(s) = Self::new(c) { return Ok(s); }\n}\nErr(InvalidSingleton(str))"))
ref("impl-str", (SC, "utils::case_insensitive_cmp(self.as_bytes(), other.as_bytes())", "utils::case_insensitive_cmp(self.as_str().as_bytes(), other.as_str().as_bytes())"),
    (SC, "Some(self.cmp(other))", "Some(Ord::cmp(self, other))"), (RG, "utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())", "self.as_bytes().eq_ignore_ascii_case(other.as_bytes())"),
    (RG, "Some(self.cmp(other))", "Some(utils::case_insensitive_cmp(self.0.as_bytes(), other.0.as_bytes()))"))
ref("impl-eqcmp", (SC, "utils::case_insensitive_eq(self.as_bytes(), other.as_bytes())", "self.cmp(other).is_eq()"),
    (SC, "utils::case_insensitive_hash(self.as_bytes(), state)", "for c in self.0.bytes() { c.to_ascii_lowercase().hash(state); }"), props="C13 C14 C15 C24 C23".split())
# third batch: less usual library calls
ref("z-split-last", re_fn(V, "fn next_back(&mut self)", "if self.end <= self.offset { return None; }\nlet rest = &self.data[self.offset..self.end];\nlet last = rest.rsplit('-').next()?;\nlet start = self.end - last.len();\nself.end = start.saturating_sub(1);\nSome(unsafe { Variant::new_unchecked(last) })"))
ref("z-rmatch", re_fn(N, "fn find_segment_start", "string[..end].rmatch_indices('-').next().map_or(0, |(i, _)| i + 1)"))
ref("z-match", re_fn(N, "fn find_segment_end", "string[offset..].match_indices('-').next().map_or(string.len(), |(i, _)| offset + i)"))
ref("z-charind", re_fn(N, "fn find_segment_end", "for (i, c) in string[offset..].char_indices() {\nif c == '-' { return offset + i; }\n}\nstring.len()"))
ref("z-bsplit", re_fn(N, "fn find_segment_end", "match string.as_bytes()[offset..].split(|b| *b == b'-').next() {\nSome(first) => offset + first.len(),\nNone => offset,\n}"))
ref("z-fold", re_fn(N, "fn find_segment_start", "string.as_bytes()[..end].iter().enumerate().fold(0, |start, (i, b)| if *b == b'-' { i + 1 } else { start })"))
ref("z-last", re_fn(N, "fn find_segment_start", "string.bytes().take(end).enumerate().filter(|(_, b)| *b == b'-').last().map_or(0, |(i, _)| i + 1)"))
ref("z-trywhile", re_fn(N, "fn find_segment_end", "let mut rest = &string.as_bytes()[offset..];\nlet mut end = offset;\nwhile let [first, tail @ ..] = rest {\nif *first == b'-' { break; }\nend += 1;\nrest = tail;\n}\nend"))
ref("z-splitfirst", re_fn(N, "fn find_segment_start", "let mut rest = &string.as_bytes()[..end];\nwhile let Some((last, init)) = rest.split_last() {\nif *last == b'-' { return rest.len(); }\nrest = init;\n}\n0"))
ref("z-fromfn", re_fn(X, "pub fn get(&self, singleton: Singleton)", "let mut iter = self.iter();\ncore::iter::from_fn(move || iter.next()).skip_while(|e| !e.singleton().0.eq_ignore_ascii_case(&singleton.0)).next()"))
ref("z-findmap", re_fn(X, "pub fn get(&self, singleton: Singleton)", "self.iter().find_map(|e| (e.singleton().unwrap().to_ascii_lowercase() == singleton.unwrap().to_ascii_lowercase()).then_some(e))"))
ref("z-starts", re_fn(X, "pub fn get(&self, singleton: Singleton)", "let wanted = singleton.0.to_ascii_lowercase();\nself.iter().filter(|e| e.as_bytes().first().map(u8::to_ascii_lowercase) == Some(wanted)).next()"))
ref("z-peek", re_fn(X, "pub fn get(&self, singleton: Singleton)", "let mut iter = self.iter().peekable();\nwhile let Some(e) = iter.peek() {\nif char::from(e.singleton().0).to_ascii_lowercase() == char::from(singleton.0).to_ascii_lowercase() { return iter.next(); }\niter.next();\n}\nNone"))
ref("z-tryfold", re_fn(X, "pub fn get(&self, singleton: Singleton)", "use core::ops::ControlFlow;\nmatch self.iter().try_fold((), |(), e| if e.singleton().0.eq_ignore_ascii_case(&singleton.0) { ControlFlow::Break(e) } else { ControlFlow::Continue(()) }) {\nControlFlow::Break(e) => Some(e),\nControlFlow::Continue(()) => None,\n}"))
ref("z-chain", re_fn(U, "pub fn case_insensitive_eq", "a.len() == b.len() && core::iter::zip(a, b).find(|(x, y)| into_smallcase(**x) != into_smallcase(**y)).is_none()"))
ref("z-position", re_fn(U, "pub fn case_insensitive_eq", "a.len() == b.len() && a.iter().zip(b).position(|(x, y)| into_smallcase(*x) != into_smallcase(*y)).is_none()"))
ref("z-sum", re_fn(U, "pub fn case_insensitive_eq", "a.len() == b.len() && a.iter().zip(b).filter(|(x, y)| into_smallcase(**x) == into_smallcase(**y)).count() == a.len()"))
ref("z-itercmp", re_fn(U, "pub fn case_insensitive_cmp", "let common = a.len().min(b.len());\na[..common].iter().map(|c| into_smallcase(*c)).cmp(b[..common].iter().map(|c| into_smallcase(*c))).then(b.len().cmp(&a.len()))"))
ref("z-thenwith", re_fn(U, "pub fn case_insensitive_cmp", "for (x, y) in a.iter().map(u8::to_ascii_lowercase).zip(b.iter().map(u8::to_ascii_lowercase)) {\nif x != y { return x.cmp(&y); }\n}\na.len().cmp(&b.len()).reverse()"))
ref("z-tryforeach", re_fn(U, "pub fn case_insensitive_cmp", "match a.iter().zip(b).try_for_each(|(x, y)| match into_smallcase(*x).cmp(&into_smallcase(*y)) { Ordering::Equal => Ok(()), ord => Err(ord) }) {\nOk(()) => b.len().cmp(&a.len()),\nErr(ord) => ord,\n}"))
ref("z-puiter", re_fn(PU, "fn next(&mut self)", "let rest = self.data.as_bytes().get(self.offset..).filter(|r| !r.is_empty())?;\nlet len = rest.iter().position(|b| *b == b'-').unwrap_or(rest.len());\nlet start = core::mem::replace(&mut self.offset, self.offset + len + 1);\nself.data.get(start..start + len).map(|s| unsafe { PrivateUseSubtag::new_unchecked(s) })"))
ref("z-putake", re_fn(PU, "fn next(&mut self)", "let data = core::mem::take(&mut self.data);\nlet rest = data.get(self.offset..).unwrap_or_default();\nif rest.is_empty() { return None; }\nself.offset = 0;\nlet (item, tail) = rest.split_once('-').unwrap_or((rest, \"\"));\nself.data = tail;\nSome(unsafe { PrivateUseSubtag::new_unchecked(item) })"))
ref("z-singarr", re_fn(X, "pub fn from_string", "<[u8; 1]>::try_from(str.as_bytes()).ok().and_then(|[c]| Self::new(c).ok()).ok_or(InvalidSingleton(str))"))
ref("z-singparse", re_fn(X, "pub fn from_string", "let c: char = str.parse().map_err(|_| InvalidSingleton(str))?;\nSelf::try_from(c).map_err(|_| InvalidSingleton(str))"))
ref("z-singdigit", re_fn(X, "pub fn new(c: u8)", "match char::from(c).to_digit(36) {\nSome(33) | None => Err(InvalidSingleton(c)),\nSome(_) => Ok(Self(c)),\n}"))
ref("z-scan", re_fn(N, "fn private_use_offset", "self.0.split('-').scan(0usize, |at, s| { let start = *at; *at += s.len() + 1; Some((start, s)) }).skip(1).find(|(_, s)| s.eq_ignore_ascii_case(\"x\")).map(|(i, _)| i)"))
ref("z-minfind", re_fn(N, "fn private_use_offset", "let lower = self.0.find(\"-x-\").unwrap_or(usize::MAX);\nlet upper = self.0.find(\"-X-\").unwrap_or(usize::MAX);\nlet at = lower.min(upper);\nif at == usize::MAX { None } else { Some(at + 1) }"))
ref("z-pat", re_fn(N, "fn find_segment_end", "string[offset..].find(|c: char| c == '-').map(|i| i + offset).unwrap_or_else(|| string.len())"))
ref("z-patarr", re_fn(N, "fn find_segment_end", "string[offset..].find(['-']).map_or(string.len(), |i| i + offset)"))
ref("z-first", re_fn(V, "pub fn first(&self)", "self.0.split('-').next().filter(|s| !s.is_empty()).map(|s| unsafe { Variant::new_unchecked(s) })"))
ref("z-last2", re_fn(V, "pub fn last(&self)", "if self.0.is_empty() { return None; }\nself.0.rsplit_once('-').map(|(_, last)| last).or(Some(&self.0)).map(|s| unsafe { Variant::new_unchecked(s) })"))
ref("z-sizehint", (V, "impl<'a> DoubleEndedIterator for VariantsIter<'a> {", "impl<'a> core::iter::FusedIterator for VariantsIter<'a> {}\n\nimpl<'a> DoubleEndedIterator for VariantsIter<'a> {"))
ref("z-sizehint2", (PU, "impl<'a> Iterator for PrivateUseIter<'a> {\n\ttype Item = &'a PrivateUseSubtag;\n", "impl<'a> Iterator for PrivateUseIter<'a> {\n\ttype Item = &'a PrivateUseSubtag;\n\n\tfn size_hint(&self) -> (usize, Option<usize>) {\n\t\tlet left = self.data.len().saturating_sub(self.offset);\n\t\t(usize::from(left > 0), Some(left.div_ceil(2)))\n\t}\n"), props="C03 C04 C10 C23 C26".split())
ref("z-count", (PU, "impl<'a> Iterator for PrivateUseIter<'a> {\n\ttype Item = &'a PrivateUseSubtag;\n", "impl<'a> Iterator for PrivateUseIter<'a> {\n\ttype Item = &'a PrivateUseSubtag;\n\n\tfn count(self) -> usize {\n\t\tif self.offset >= self.data.len() { return 0; }\n\t\tself.data[self.offset..].bytes().filter(|b| *b == b'-').count() + 1\n\t}\n"), props="C03 C04 C10 C23 C26".split())
ref("z-const", re_fn(U, "pub fn into_smallcase", "const TABLE: [u8; 256] = {\nlet mut t = [0; 256];\nlet mut i = 0;\nwhile i < 256 { t[i] = (i as u8).to_ascii_lowercase(); i += 1; }\nt\n};\nTABLE[c as usize]"))
ref("z-wrap", re_fn(U, "pub fn into_smallcase", "if c.wrapping_sub(b'A') < 26 { c ^ 0x20 } else { c }"))
ref("z-bool", re_fn(U, "pub fn into_smallcase", "c + 32 * c.is_ascii_uppercase() as u8"))
ref("z-char", re_fn(U, "pub fn into_smallcase", "(c as char).to_ascii_lowercase() as u8"))
ref("z-cow", re_fn(U, "pub fn case_insensitive_eq", "struct Folded<'a>(&'a [u8]);\nimpl PartialEq for Folded<'_> {\nfn eq(&self, o: &Self) -> bool { self.0.iter().map(|c| into_smallcase(*c)).eq(o.0.iter().map(|c| into_smallcase(*c))) }\n}\nFolded(a) == Folded(b)"))
ref("z-trait", (U, "pub fn case_insensitive_eq(a: &[u8], b: &[u8]) -> bool {\n\tif a.len()", "trait Fold { fn fold(&self) -> u8; }\nimpl Fold for u8 { fn fold(&self) -> u8 { into_smallcase(*self) } }\n\npub fn case_insensitive_eq(a: &[u8], b: &[u8]) -> bool {\n\tif a.len()"), (U, "if into_smallcase(a[i]) != into_smallcase(b[i]) {", "let (x, y): (&dyn Fold, &dyn Fold) = (&a[i], &b[i]);\n\t\t\tif x.fold() != y.fold() {"))
ref("z-dynfn", (N, "mut offset: usize, mut f: impl FnMut(usize, &str) -> bool) -> usize {", "offset: usize, mut f: impl FnMut(usize, &str) -> bool) -> usize {\n\tlist_end(string, offset, &mut f)\n}\n\nfn list_end(string: &str, mut offset: usize, f: &mut dyn FnMut(usize, &str) -> bool) -> usize {"), props="C05 C06 C10 C12 C16".split())
ref("z-dynref", (N, "mut offset: usize, mut f: impl FnMut(usize, &str) -> bool) -> usize {", "offset: usize, f: impl Fn(usize, &str) -> bool) -> usize {\n\tlist_end(string, offset, &f)\n}\n\nfn list_end(string: &str, mut offset: usize, f: &dyn Fn(usize, &str) -> bool) -> usize {"), props="C05 C06 C10 C12 C16".split())
ref("z-fnptr", (N, "Region::new(segment).is_ok()\n", "is_region(segment)\n"), (N, "fn find_segment_start", "fn is_region(text: &str) -> bool {\n\tconst TESTS: [fn(&str) -> bool; 1] = [|t| Region::new(t).is_ok()];\n\tTESTS.iter().any(|t| t(text))\n}\n\nfn find_segment_start"), props="C05 C06 C16".split())
ref("z-enum", (N, "fn find_segment_end(string: &str, offset: usize) -> usize {\n", "enum Step {\n\tMore(usize),\n\tDone(usize),\n}\n\nimpl Step {\n\tfn from(string: &str, i: usize) -> Self {\n\t\tmatch string.as_bytes().get(i) {\n\t\t\tSome(b'-') | None => Self::Done(i),\n\t\t\tSome(_) => Self::More(i + 1),\n\t\t}\n\t}\n}\n\nfn find_segment_end(string: &str, offset: usize) -> usize {\n\tlet mut step = Step::from(string, offset);\n\tloop {\n\t\tmatch step {\n\t\t\tStep::More(i) => step = Step::from(string, i),\n\t\t\tStep::Done(i) => return i,\n\t\t}\n\t}\n}\n\n#[allow(dead_code)]\nfn old_segment_end(string: &str, offset: usize) -> usize {\n"), props="C05 C10 C11 C16 C23".split())
ref("z-rec", re_fn(N, "fn find_segment_end", "match string.as_bytes().get(offset) {\nSome(b'-') | None => offset,\nSome(_) => find_segment_end(string, offset + 1),\n}"), props="C05 C10 C23".split())
ref("z-cursor", (X, "impl Extensions {\n\tpub const EMPTY", "struct Cursor<'a> {\n\ttext: &'a str,\n\tpos: usize,\n}\n\nimpl<'a> Cursor<'a> {\n\tfn next_subtag(&mut self) -> Option<(usize, &'a str)> {\n\t\tif self.pos >= self.text.len() {\n\t\t\treturn None;\n\t\t}\n\t\tlet start = self.pos;\n\t\tlet end = super::find_segment_end(self.text, start);\n\t\tself.pos = end + 1;\n\t\tSome((start, &self.text[start..end]))\n\t}\n}\n\nimpl Extensions {\n\tpub const EMPTY"), re_fn(X, "pub fn get(&self, singleton: Singleton)", "let mut cursor = Cursor { text: &self.0, pos: 0 };\nlet mut found: Option<(usize, usize)> = None;\nwhile let Some((start, subtag)) = cursor.next_subtag() {\nmatch (&mut found, subtag.len()) {\n(Some(_), 1) => break,\n(Some((_, end)), n) => *end = start + n,\n(None, 1) if subtag.as_bytes()[0].eq_ignore_ascii_case(&singleton.0) => found = Some((start, start + 1)),\n_ => (),\n}\n}\nfound.map(|(start, end)| unsafe { Extension::new_unchecked(&self.0[start..end]) })"), props="C03 C04 C12 C16 C23".split())
FOR = {
    U: "C04 C09 C12 C13 C14 C15 C23 C24 C25 C26", N: "C03 C04 C05 C06 C07 C10 C11 C12 C16 C23 C24 C25", X: "C03 C04 C10 C12 C16 C17 C23 C24 C25 C26", V: "C03 C04 C10 C11 C16 C23 C26",
    GF: "C03 C04 C08 C09 C16 C23 C24", PU: "C03 C04 C10 C16 C23 C25 C26", L: "C04 C07 C08 C16 C24", LG: "C03 C04 C05 C10 C16 C23", EL: "C03 C04 C10 C16 C23 C25", SC: "C13 C15", RG: "C13 C15",
    G: "C01 C02 C03 C04 C05 C06 C22 C23",
}
for b in ALL:
    b.setdefault("props", sorted({p for e in b["edits"] for p in FOR[e[0]].split()}))

# Fourth batch: conditions that are weaker than the parsers they replace, and still enough on valid tags.
A, B_, C_, D_, E_ = ("i == offset && Script::new(segment).is_ok()", "i == offset && Region::new(segment).is_ok()", "|_, segment| Variant::new(segment).is_ok()",
    "Singleton::from_string(segment).is_ok() || ExtensionSubtag::new(segment).is_ok()", "i == 0 || ExtendedLangTag::new(segment).is_ok()")
ref("q-script-len", (N, A, "i == offset && segment.len() == 4 && segment.bytes().all(|b| b.is_ascii_alphabetic())"))
ref("q-script-first", (N, A, "i == offset && segment.len() == 4 && !segment.starts_with(|c: char| c.is_ascii_digit())"))
ref("q-script-any", (N, A, "i >= offset && Script::new(segment).is_ok()"))
ref("q-region-len", (N, B_, "i == offset && matches!(segment.len(), 2 | 3)"))
ref("q-region-any", (N, B_, "i >= offset && Region::new(segment).is_ok()"))
ref("q-var-len", (N, C_, "|_, segment| segment.len() >= 4"))
ref("q-var-one", (N, C_, "|_, segment| segment.len() != 1"))
ref("q-ext-x", (N, D_, "segment.len() > 1 || !segment.eq_ignore_ascii_case(\"x\")"))
ref("q-ext-x2", (N, D_, "!matches!(segment, \"x\" | \"X\")"))
ref("q-ext-two", (N, D_, "segment.len() >= 2 || Singleton::from_string(segment).is_ok()"))
ref("q-lang-len", (N, E_, "i == 0 || segment.len() == 3 && segment.bytes().all(|b| b.is_ascii_alphabetic())"))
ref("q-lang-digit", (N, E_, "i == 0 || (segment.len() == 3 && !segment.as_bytes()[0].is_ascii_digit())"))
ref("q-get-bound", (X, "while i + 1 < self.0.len() {", "while i < self.0.len() {"))
ref("q-iter-len", (X, "ExtensionSubtag::new(segment).is_ok()\n\t\t\t});", "segment.len() > 1\n\t\t\t});"))
