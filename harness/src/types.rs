//! The string types of the crate.
/// Runs `$body` with the type number `$ty` as `$T` (and its owned form `$B`, its error `$E`).
#[macro_export]
macro_rules! each {
    ($ty:expr, $f:ident $args:tt) => {
        match $ty {
            0 => each!(@ $f, LangTag, LangTagBuf, InvalidLangTag, $args),
            1 => each!(@ $f, NormalLangTag, NormalLangTagBuf, InvalidNormalLangTag, $args),
            2 => each!(@ $f, PrivateUse, PrivateUseBuf, InvalidPrivateUse, $args),
            3 => each!(@ $f, Language, LanguageBuf, InvalidLanguage, $args),
            4 => each!(@ $f, PrimaryLanguage, PrimaryLanguageBuf, InvalidPrimaryLanguage, $args),
            5 => each!(@ $f, LanguageExtension, LanguageExtensionBuf, InvalidLanguageExtension, $args),
            6 => each!(@ $f, ExtendedLangTag, ExtendedLangTagBuf, InvalidExtendedLangTag, $args),
            7 => each!(@ $f, Script, ScriptBuf, InvalidScript, $args),
            8 => each!(@ $f, Region, RegionBuf, InvalidRegion, $args),
            9 => each!(@ $f, Variant, VariantBuf, InvalidVariant, $args),
            10 => each!(@ $f, Variants, VariantsBuf, InvalidVariants, $args),
            11 => each!(@ $f, Extension, ExtensionBuf, InvalidExtension, $args),
            12 => each!(@ $f, ExtensionSubtag, ExtensionSubtagBuf, InvalidExtensionSubtag, $args),
            13 => each!(@ $f, Extensions, ExtensionsBuf, InvalidExtensions, $args),
            _ => each!(@ $f, PrivateUseSubtag, PrivateUseSubtagBuf, InvalidPrivateUseSubtag, $args),
        }
    };
    (@ $f:ident, $T:ident, $B:ident, $E:ident, ($($a:tt)*)) => {
        $f!($T, $B, $E, $($a)*)
    };
}
