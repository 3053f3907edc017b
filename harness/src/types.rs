//! The tag and component types: (module, borrowed, owned, error, RFC 5646 language).
macro_rules! tag_type {
    ($m:ident) => {
        $m!(lang_tag, LangTag, LangTagBuf, InvalidLangTag, "LangTag", as_lang_tag);
    };
}
macro_rules! all_types {
    ($m:ident) => {
        tag_type!($m);
        component_types!($m);
    };
}
macro_rules! component_types {
    ($m:ident) => {
        $m!(normal_lang_tag, NormalLangTag, NormalLangTagBuf, InvalidNormalLangTag, "NormalLangTag", as_normal_lang_tag);
        $m!(private_use, PrivateUse, PrivateUseBuf, InvalidPrivateUse, "PrivateUse", as_private_use);
        $m!(private_use_subtag, PrivateUseSubtag, PrivateUseSubtagBuf, InvalidPrivateUseSubtag, "PrivateUseSubtag", as_private_use_subtag);
        $m!(language, Language, LanguageBuf, InvalidLanguage, "Language", as_language);
        $m!(primary_language, PrimaryLanguage, PrimaryLanguageBuf, InvalidPrimaryLanguage, "PrimaryLanguage", as_primary_language);
        $m!(language_extension, LanguageExtension, LanguageExtensionBuf, InvalidLanguageExtension, "LanguageExtension", as_language_extension);
        $m!(extended_lang_tag, ExtendedLangTag, ExtendedLangTagBuf, InvalidExtendedLangTag, "ExtendedLangTag", as_extended_lang_tag);
        $m!(script, Script, ScriptBuf, InvalidScript, "Script", as_script);
        $m!(region, Region, RegionBuf, InvalidRegion, "Region", as_region);
        $m!(variant, Variant, VariantBuf, InvalidVariant, "Variant", as_variant);
        $m!(variants, Variants, VariantsBuf, InvalidVariants, "Variants", as_variants);
        $m!(extension, Extension, ExtensionBuf, InvalidExtension, "Extension", as_extension);
        $m!(extensions, Extensions, ExtensionsBuf, InvalidExtensions, "Extensions", as_extensions);
        $m!(extension_subtag, ExtensionSubtag, ExtensionSubtagBuf, InvalidExtensionSubtag, "ExtensionSubtag", as_extension_subtag);
    };
}
