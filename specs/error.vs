@@ item error | std::error::Error for Error<DelegateError> => drop
@@ item error | std::error::Error for ErrorKind<DelegateError> => drop
@@ item error | Error => derive
-PartialEq
@@ item error | ErrorKind => derive
-PartialEq -Eq
@@ module error
/// an error kind that no delegate raised, seen as an error kind of any delegate
pub open spec fn conv<E>(k: ErrorKind<Infallible>) -> ErrorKind<E> {
    match k {
        ErrorKind::Utf8 => ErrorKind::Utf8,
        ErrorKind::UnexpectedEof => ErrorKind::UnexpectedEof,
        ErrorKind::ExpectedObjectKey => ErrorKind::ExpectedObjectKey,
        ErrorKind::ExpectedColon => ErrorKind::ExpectedColon,
        ErrorKind::ExpectedValue => ErrorKind::ExpectedValue,
        ErrorKind::ExpectedCommaOrEndOfObject => ErrorKind::ExpectedCommaOrEndOfObject,
        ErrorKind::ExpectedCommaOrEndOfArray => ErrorKind::ExpectedCommaOrEndOfArray,
        ErrorKind::IllegalTrailingComma => ErrorKind::IllegalTrailingComma,
        ErrorKind::Unexpected(ch) => ErrorKind::Unexpected(ch),
        ErrorKind::TrailingNonWhitespace => ErrorKind::TrailingNonWhitespace,
        ErrorKind::ObjectKeysMustBeStrings => ErrorKind::ObjectKeysMustBeStrings,
        ErrorKind::ExpectedExponent => ErrorKind::ExpectedExponent,
        ErrorKind::ExpectedDecimalDigit => ErrorKind::ExpectedDecimalDigit,
        ErrorKind::ExpectedDigit => ErrorKind::ExpectedDigit,
        ErrorKind::InvalidHexadecimal => ErrorKind::InvalidHexadecimal,
        ErrorKind::InvalidEscape => ErrorKind::InvalidEscape,
        ErrorKind::UnclosedObject => ErrorKind::UnclosedObject,
        ErrorKind::UnclosedArray => ErrorKind::UnclosedArray,
        ErrorKind::UnclosedString => ErrorKind::UnclosedString,
        ErrorKind::ExpectedString => ErrorKind::ExpectedString,
        ErrorKind::ExpectedNumber => ErrorKind::ExpectedNumber,
        ErrorKind::RecursionLimitReached => ErrorKind::RecursionLimitReached,
        ErrorKind::PayloadsShouldBeObjectOrArray => ErrorKind::PayloadsShouldBeObjectOrArray,
        ErrorKind::PaylodTooLarge => ErrorKind::PaylodTooLarge,
        ErrorKind::ErrorFromDelegate(_) => arbitrary(),
    }
}
/// an error kind whose delegate raises error kinds, flattened
pub open spec fn flat(k: ErrorKind<ErrorKind>) -> ErrorKind {
    match k {
        ErrorKind::Utf8 => ErrorKind::Utf8,
        ErrorKind::UnexpectedEof => ErrorKind::UnexpectedEof,
        ErrorKind::ExpectedObjectKey => ErrorKind::ExpectedObjectKey,
        ErrorKind::ExpectedColon => ErrorKind::ExpectedColon,
        ErrorKind::ExpectedValue => ErrorKind::ExpectedValue,
        ErrorKind::ExpectedCommaOrEndOfObject => ErrorKind::ExpectedCommaOrEndOfObject,
        ErrorKind::ExpectedCommaOrEndOfArray => ErrorKind::ExpectedCommaOrEndOfArray,
        ErrorKind::IllegalTrailingComma => ErrorKind::IllegalTrailingComma,
        ErrorKind::Unexpected(ch) => ErrorKind::Unexpected(ch),
        ErrorKind::TrailingNonWhitespace => ErrorKind::TrailingNonWhitespace,
        ErrorKind::ObjectKeysMustBeStrings => ErrorKind::ObjectKeysMustBeStrings,
        ErrorKind::ExpectedExponent => ErrorKind::ExpectedExponent,
        ErrorKind::ExpectedDecimalDigit => ErrorKind::ExpectedDecimalDigit,
        ErrorKind::ExpectedDigit => ErrorKind::ExpectedDigit,
        ErrorKind::InvalidHexadecimal => ErrorKind::InvalidHexadecimal,
        ErrorKind::InvalidEscape => ErrorKind::InvalidEscape,
        ErrorKind::UnclosedObject => ErrorKind::UnclosedObject,
        ErrorKind::UnclosedArray => ErrorKind::UnclosedArray,
        ErrorKind::UnclosedString => ErrorKind::UnclosedString,
        ErrorKind::ExpectedString => ErrorKind::ExpectedString,
        ErrorKind::ExpectedNumber => ErrorKind::ExpectedNumber,
        ErrorKind::RecursionLimitReached => ErrorKind::RecursionLimitReached,
        ErrorKind::PayloadsShouldBeObjectOrArray => ErrorKind::PayloadsShouldBeObjectOrArray,
        ErrorKind::PaylodTooLarge => ErrorKind::PaylodTooLarge,
        ErrorKind::ErrorFromDelegate(kind) => kind,
    }
}
/// every value of an uninhabited error type is impossible
pub axiom fn infallible_uninhabited(k: Infallible)
    ensures false;
@@ fn error | Error<DelegateError> | kind
@@ ret r
    ensures *r == self.kind,
@@ fn error | Error<DelegateError> | offset
@@ ret r
    ensures r == self.offset,
@@ fn error | Error<Infallible> | into_fallable
@@ ret r
    ensures r.offset == self.offset, r.kind == conv::<DelegateError>(self.kind),
@@ fn error | Error<ErrorKind> | into_infallable
@@ ret r
    ensures r.offset == self.offset, r.kind == flat(self.kind),
@@ fn error | ErrorKind<Infallible> | into_fallable
@@ ret r
    ensures r == conv::<DelegateError>(self),
@@ head
proof { if let ErrorKind::ErrorFromDelegate(k) = self { infallible_uninhabited(k); } }
@@ fn error | ErrorKind<ErrorKind> | into_infallable
@@ ret r
    ensures r == flat(self),

@@ fn error | Display for Error<DelegateError> | fmt
@@ ret r
    ensures sent(old(f)).is_prefix_of(sent(final(f))),
@@ fn error | Display for ErrorKind<DelegateError> | fmt
@@ ret r
    ensures sent(old(f)).is_prefix_of(sent(final(f))),
