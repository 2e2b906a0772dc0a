"""What each check claims: the functions of /repo whose obligations make up the property (its closure), the theorems over
their contracts, the level and the assumptions.  Used by check.py and mkmanifest.py."""

BASE_TRUST = [
    'Verus 0.2026.09.13 (VC generation), its bundled Z3, rustc\'s front end, vstd\'s assumed contracts for core/alloc',
    'tools/splice.py: the annotated text is /repo/src cut per function with the listed rewrites (coverage.rewrites, DESIGN.md)',
    'specs/trusted.rs: assumed contracts of core functions vstd does not specify (listed there, one by one)',
    'specs/stdlib.rs: the same for core functions that only a rewritten source would call',
    'no slice is longer than 2^57 bytes (axiom slice_len_bound); usize is 64 bits wide',
]
PROOF_MODULES = ['spec', 'lemmas', 'views', 'run', 'theorems', 'grammar', 'strings', 'write', 'docs', 'trusted', 'roundtrip', 'lexical', 'heapless']

TOK = [r'^parser \| (ByteIterator|Tokenizer|Iterator for ByteIterator|Iterator for Tokenizer|InitialNumberState|Token)', r'^parser \| - ',
       r'^string \| JsonStringInfo', r'^string \| - \| ', r'^string \| (HEX|SAFE)']
ANY = [r'^anystr \|']
PARSE = [r'^parser \| (Parser|ParseState|ParseConfig|ParseDelegate for \( \)|Default for ParseConfig)']
ERRF = [r'^error \|']
STR = [r'^string \|']
NUM = [r'^number \|']
VALP = [r'^value \| ParseDelegate for ValueParser']
VALW = [r'^value \| (WriteState|Value \| (write|pretty|to_json)|Display)']
DOC = [r'^doc \|']

CLAIMS = {}
THEOREMS = {}


def c(p, fns, level='other', note='', assumptions=(), technique=None):
    CLAIMS[p] = dict(fns=fns, level=level, note=note, assumptions=list(assumptions),
                     technique=technique or 'contract-based deductive verification of the real code (Verus), failed obligations replayed by a search harness')


PROOF_NOTE = ('every function of /repo this property depends on is verified by Verus against its contract on each run, for all '
              'inputs; the named theorems and postconditions state the property over those contracts. Trusted: the list in '
              'coverage.trusted_base and assumptions. ')


def p(prop, fns, thms, note='', assumptions=()):
    THEOREMS[prop] = thms
    c(prop, fns, 'proof', PROOF_NOTE + note, assumptions)


A_BELL = 'the short escape b stands for U+0007, as the existing tests pin (known-findings.txt), not U+0008'
A_TOKNEXT = ('Tokenizer::next assumes at entry that a tokenizer made from a &str still has valid UTF-8 in it: Iterator::next admits no '
             'precondition; both constructors establish it, no method changes the bytes, and the fields are private')
A_DELEG = ('a delegate obeys its own functional model (trait ParseDelegate, specs/driver.vs): proved for the five implementations '
           'in /repo; for a user\'s handler the model is whatever function of its state it computes')
A_DOC = "a backing of a document obeys the laws of NodeCollection (specs/doc.vs): proved for Vec and for the stub of heapless::Vec; assumed of a user's backing"
A_YIELDS = 'for collecting an object from an iterator, what the iterator yields is what IntoIterator says (FromIterator::from_iter admits no precondition)'
A_HEAPLESS = 'heapless::Vec is replaced by a stub with assumed contracts (specs/heapless.rs): push fails exactly at capacity'
A_FMT = 'core::fmt::Write is modelled by the characters received and a failure state (specs/trusted.rs); Formatter is one such destination'
A_STR = 'str::chars, char_indices, str::parse and the order of str are the assumed contracts of specs/trusted.rs'
A_DEPTH = 'a value in memory is nested less deep than 2^57 (axiom value_depth_bound)'

p('C01', TOK + PARSE + VALP, ['run::run', 'theorems::run_thm', 'theorems::validate_thm', 'theorems::value_parse_thm', 'theorems::doc_parse_thm', 'parser::Parser::parse_bytes'],
  assumptions=[A_DELEG, A_TOKNEXT])
p('C02', TOK + PARSE + VALP, ['theorems::value_parse_thm', 'value::Value::from_json'], assumptions=[A_DELEG])
p('C03', TOK + PARSE + [r'^string \| .*Decoded'], ['lexical::bytes_thm', 'lexical::accepted_valid', 'lexical::accepted_thm', 'lexical::lex_valid'],
  assumptions=[A_TOKNEXT, A_DELEG])
p('C04', TOK + STR, ['strings::decode_next', 'strings::decoded_valid', 'strings::scan_unchecked', 'string::Decoded::next', 'string::JsonString::decoded'], assumptions=[A_BELL, A_STR])
p('C05', STR, ['strings::escape_scan', 'strings::escape_plain', 'strings::escape_len', 'roundtrip::escaped_scan', 'string::AsJson::next'], assumptions=[A_BELL, A_STR])
p('C06', STR + ANY, ['strings::str_cmp_refl', 'strings::str_cmp_rev', 'strings::str_cmp_trans', 'string::JsonString::eq', 'string::JsonString::cmp', 'string::JsonString::hash'], assumptions=[A_STR])
p('C07', VALW + [r'^string \| .*AsJson'], ['roundtrip::roundtrip_thm', 'roundtrip::reads_back_thm', 'value::Value::to_json'], assumptions=[A_FMT, A_DEPTH])
p('C08', DOC, ['theorems::doc_thm', 'theorems::doc_parse_thm', 'docs::take_flat'], assumptions=[A_DOC, A_HEAPLESS])
p('C09', PARSE, ['parser::Parser::parse_bytes'], assumptions=[A_DELEG])
p('C10', PARSE, ['lexical::limit_thm', 'lexical::config_thm'], assumptions=[A_DELEG])
p('C11', [r'.'], ['parser::Parser::parse_bytes', 'lemmas::lex_bounds'],
  'The property is the implicit obligations (no overflow, no out-of-bounds access, no reachable panic, termination) of every function listed. Not included: stack depth, allocation failure, and derived impls of Debug (no code in /repo). ',
  [A_TOKNEXT, A_DOC, A_YIELDS, A_HEAPLESS, A_FMT, A_STR, A_DEPTH])
p('C12', TOK + NUM + [r'^value \| Value \| as_[uif]\d', r'^value \| Value \| as_[ui]size'], ['lemmas::num_cut', 'lemmas::num_longest', 'number::JsonNumber::parse'], assumptions=[A_STR])
p('C13', TOK, ['lexical::lex_kind', 'parser::Tokenizer::next', 'parser::Tokenizer::next_or_eof', 'parser::Tokenizer::peek'], assumptions=[A_TOKNEXT])
p('C14', [r'^value \| (Value|Object|Index)', r'^doc \| Node'], ['value::Object::get', 'value::Object::get_mut', 'value::Object::get_entry_mut', 'value::Value::get', 'value::Value::get_index'], assumptions=[A_YIELDS])
p('C15', ERRF + TOK + PARSE + NUM + [r'^string \| (ParseDelegate for StringParser|JsonString \| from_json)'], ['theorems::number_thm', 'theorems::string_thm', 'error::Error::into_fallable', 'error::Error::into_infallable'], assumptions=[A_DELEG])
p('C16', PARSE, ['lexical::config_thm', 'parser::Parser::parse_bytes'], assumptions=[A_DELEG])
p('C17', VALW + [r'^string \| .*Display'], ['value::Value::write_json_to', 'value::Value::pretty_write_json_to_custom'], assumptions=[A_FMT, A_DEPTH])
p('C18', DOC, ['theorems::doc_thm', 'theorems::doc_parse_thm'], assumptions=[A_DOC, A_HEAPLESS])
NOT_APPLICABLE = {}
