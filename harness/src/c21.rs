//! C21: the compile-time macro. The literal below stands for every literal: the analyser reads it
//! as the text of the entry point's argument.
pub mod ok {
    use crate::lt::*;
    use langtag::*;
    pub fn well_formed_literal(t: &'static str) {
        assume(in_lang(t, "LangTag"));
        let v: &'static LangTag = langtag!("\u{1}any literal\u{1}");
        check(same_slice(v, t), "the macro yields the tag with the literal's own text");
    }
}
/// A panic in constant evaluation is a compilation error.
pub mod rejects {
    use crate::lt::*;
    use langtag::*;
    pub fn ill_formed_literal(t: &'static str) {
        assume(!in_lang(t, "LangTag"));
        check(true, "the macro is applied to ill-formed literals");
        let _v: &'static LangTag = langtag!("\u{1}any literal\u{1}");
        check(false, "no ill-formed literal yields a tag");
    }
}
/// The macro body is accepted in a constant function.
#[allow(dead_code)]
const fn in_const_fn() -> &'static langtag::LangTag {
    langtag::langtag!("\u{1}any literal\u{1}")
}
