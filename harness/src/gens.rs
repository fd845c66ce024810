//! Generators shared between properties.
use proptest::prelude::*;

/// Characters that stress tokenizers: ASCII of all kinds, separators, control characters,
/// multi-byte characters, combining marks, non-ASCII punctuation and whitespace.
pub fn ch() -> BoxedStrategy<char> {
    prop_oneof![
        8 => prop::sample::select("abcdeABCDE019".chars().collect::<Vec<_>>()),
        4 => prop::sample::select(" \t\n\r\u{0c}.,;:!?'\"()[]{}<>-_+=*/\\|@#$%^&~`".chars().collect::<Vec<_>>()),
        3 => prop::sample::select("éßñΩжшü中文日本語한글😀🎉\u{0301}\u{200d}\u{a0}\u{2003}\u{3000}—“”…¿§".chars().collect::<Vec<_>>()),
        1 => prop::sample::select("\u{0}\u{1}\u{0b}\u{1c}\u{7f}\u{80}\u{85}\u{bf}\u{c0}\u{7ff}\u{800}\u{ffff}\u{10000}\u{10ffff}".chars().collect::<Vec<_>>()),
        1 => any::<char>(),
    ]
    .boxed()
}

pub fn text(max: usize) -> BoxedStrategy<String> {
    prop::collection::vec(ch(), 0..=max).prop_map(|v| v.into_iter().collect()).boxed()
}

/// A word without separators.
pub fn word() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-e]{1,3}",
        2 => "[a-zA-Z0-9]{1,12}",
        1 => "[àéüñжш中文😀]{1,4}",
    ]
    .boxed()
}
