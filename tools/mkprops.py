import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if obs: a['observe_at']=obs
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})
PA='src/parser.rs'; ST='src/string.rs'; VA='src/value.rs'; DO='src/doc.rs'; NU='src/number.rs'; ER='src/error.rs'
p('C01','A payload is accepted exactly when it is JSON',
 'Under the default configuration every entry point (text or bytes; validating, building a tree, building a document, or driving a custom handler that never fails) succeeds exactly when the whole input is one JSON value of RFC 8259, surrounded by optional whitespace, nested no deeper than the limit. In particular nothing before or after the value other than the four JSON whitespace bytes is accepted, no control byte below 0x20 is accepted inside a string, and escapes must be one of the eight short forms or four hexadecimal digits that denote a Unicode scalar value (alone or as a surrogate pair). No valid payload is rejected.',
 ['inputs'],'every byte sequence and every UTF-8 text, of any length, through every parsing entry point',
 'The tests run the JSONTestSuite corpus and some hand-written inputs: a few hundred texts out of infinitely many. A byte class, table entry or state confused at one position is visible only on texts the corpus does not contain.',
 [PA,ST],[('token dispatch','parser.rs Tokenizer::read_peek'),('string scanner','parser.rs read_string_from_source/read_string_escape'),('number scanner','parser.rs read_number_from_source'),('value/object/array recursion','parser.rs read_tokens/read_object/read_array'),('trailing data check','parser.rs parse_bytes'),('byte class tables','string.rs SAFE_STRING_BYTES*, HEX_OFFSET_TABLE')],
 [('byte cursor','position of the next unread byte','parser.rs ByteIterator.offset')],['Parser::validate_json','Value::from_json','Document::from_json','Parser::parse_json'])
p('C02','The parsed value is the one the text denotes',
 'When parsing succeeds, the resulting value has exactly the structure of the text: each object has its members in source order with duplicates kept, each array has its elements in order, each scalar has the kind and the contents (exact number text, exact string text) of the source. Nothing is dropped, duplicated, reordered or attached to another parent.',
 ['inputs'],'every accepted payload, of any shape, nesting and length',
 'Existing tests compare a few small documents; a defect that depends on the nesting shape, on the number of members or on the neighbouring tokens escapes them.',
 [PA,VA],[('tree-building handler','value.rs ValueParser'),('recursion','parser.rs read_tokens/read_object/read_array'),('token contents','parser.rs read_string_from_source/read_number_from_source')],None,['Value::from_json','Value::from_json_bytes'])
p('C03','Bytes and text parse alike, and every exposed string is valid UTF-8',
 'Parsing bytes that are valid UTF-8 gives exactly the outcome of parsing the same bytes as text (same result, same error and position), and parsing bytes that are not valid UTF-8 never succeeds. Every string, number or character that the library hands out from safe code is well-formed UTF-8 / a Unicode scalar value.',
 ['inputs'],'every byte sequence, valid UTF-8 or not',
 'The unchecked conversions rest on manual validation by the tokenizer; tests try a handful of malformed sequences at fixed places, while soundness needs all of them at every position.',
 [PA,ST],[('manual UTF-8 verification','parser.rs read_string_from_source'),('unchecked slices','parser.rs read_string_from_source/read_number_from_source'),('unchecked scalar construction','parser.rs read_string_escape, string.rs Decoded::next')],None,['Value::from_json_bytes','Tokenizer::for_json_bytes','JsonString::decoded'])
p('C04','A parsed string decodes to the characters it denotes',
 'For every string literal accepted, decoding it yields the character sequence RFC 8259 assigns to it (short escapes, four-digit escapes in either letter case, surrogate pairs, and all other characters verbatim), by every way of decoding. The reported decoded length is the UTF-8 length of that sequence, and the string is borrowed undecoded exactly when it contains no escape.',
 ['inputs'],'every string literal, any mix of escapes and characters, any length',
 'Tests decode a dozen literals. The value of a four-digit escape or a surrogate pair has 65 536 and 1 048 576 cases, and the decoder re-slices the source at offsets that only line up if every preceding step consumed the right amount.',
 [ST,PA],[('decoder','string.rs Decoded::next'),('surrogate merge','string.rs merge_surrogate_pair'),('escape validation and length accounting','parser.rs read_string_escape'),('length/flag word','string.rs JsonStringInfo')],
 [('length and flag','decoded length and whether escapes are present','string.rs JsonStringInfo')],['JsonString::decoded','JsonString::decode_if_needed','JsonString::decoded_len','JsonString::as_str'])
p('C05','Raw text is escaped to valid JSON that decodes back to it',
 'Turning any text into a JSON string and asking for its JSON form yields valid JSON string content: no unescaped quote, backslash or control character below 0x20, and only legal escapes. That content denotes the original text, its length is the reported encoded length, all ways of obtaining it agree, and text that needs no escaping is passed through unchanged.',
 ['inputs'],'every Unicode text',
 'Tests escape one sample string. Escaping is a character-by-character state machine whose errors (wrong hex digit, wrong order, wrong count for a character class) show only on particular characters.',
 [ST],[('escaping state machine','string.rs AsJson::next'),('classification of raw text','string.rs From<&str>/From<String> for JsonString'),('escape_if_needed','string.rs JsonString::escape_if_needed')],
 [('escape state','what is pending from the current character','string.rs EscapeState')],['JsonString::as_json','JsonString::escape_if_needed','JsonString::len'])
p('C06','String equality, ordering and hashing see only the decoded contents',
 'Two JSON strings compare equal exactly when they decode to the same characters, and order like those decoded texts, however each is represented (escaped or raw, owned or borrowed) and on whichever side it stands; comparing with plain text follows the same rule. Equality is therefore an equivalence, the order is total and agrees with equality, and equal strings feed the same bytes to a hasher.',
 ['inputs'],'every pair and triple of strings in every representation, and every plain text',
 'The tests compare about twenty pairs. There are nine combinations of representation per operator and unboundedly many texts; shortcuts on lengths and flags make single combinations go wrong.',
 [ST,'src/anystr.rs'],[('equality','string.rs PartialEq impls'),('ordering','string.rs Ord/PartialOrd impls'),('hashing','string.rs Hash impl'),('text wrapper','anystr.rs comparison impls')],None,['==','cmp','Hash on JsonString and AnyStr'])
p('C07','Serialising a value and parsing the result gives an equal value',
 'For every value, compact output and pretty output (with any indentation and line ending made of JSON whitespace) are valid JSON that parses back to an equal value. Compact output contains no whitespace outside strings, pretty output differs from it only by whitespace between tokens, and all output functions (to a new text, to a destination, through formatting) produce the same characters.',
 ['inputs','configurations'],'every value tree of any shape, built by parsing or by hand, every indentation and line ending',
 'Tests print a few fixed documents. Separators depend on the position in each container, on emptiness, on nesting level and on the string representation, which no finite list of samples covers.',
 [VA,ST],[('writers','value.rs write_json_value/write_json_object/write_json_array'),('layout state','value.rs WriteState'),('string output','string.rs Display for AsJson')],
 [('layout','nesting level and whether a line has just begun','value.rs WriteState')],['Value::to_json','Value::to_json_pretty','Value::to_json_pretty_custom','Value::write_json_to','format!("{}")'])
p('C08','A document is the pre-order of the value, and walks consume whole values',
 'Parsing a payload into a document succeeds exactly when parsing it into a value does, its entries are the value in pre-order with each container carrying its exact number of members, and converting it into a value gives that same value. Taking or skipping the next value from a document iterator at any value boundary consumes exactly that value with everything nested in it, and reports none only at the end.',
 ['inputs','histories'],'every payload, and every sequence of next / next-value / skip-value calls',
 'Tests walk two or three documents. Counts are patched in while later entries are appended, so mistakes depend on nesting and on what was appended in between.',
 [DO],[('flat builder','doc.rs Nodes, ParseDelegate for &mut Nodes'),('rebuilding','doc.rs hydrate_value_from_node'),('walking','doc.rs DocumentIter::next_value/skip_next_value')],
 [('node list','pre-order nodes with lengths','doc.rs Nodes.collection')],['Document::from_json','Value::from(Document)','DocumentIter'])
p('C09','A handler sees the parse events in document order and its errors stop the parse',
 'For every payload, the calls made on a custom handler are exactly those dictated by the grammar: containers begin and end in a well-nested way, each key is announced before its value and handed back with it, each element is delivered once to the container it belongs to, with the object and value the handler returned earlier. The first error returned by the handler ends the parse immediately, with no further call, and that very error is returned to the caller.',
 ['inputs','histories'],'every payload and every handler behaviour, including a failure at any call',
 'Only three built-in handlers are tested, none of which fails midway through a nested structure; the property quantifies over all handlers and all failure points.',
 [PA],[('driver','parser.rs read_tokens/read_object/read_array'),('root handling','parser.rs parse_bytes')],None,['ParseDelegate methods','Parser::parse_json_with_config'])
p('C10','The nesting limit is enforced exactly',
 'With a limit of n, a payload is rejected for its depth exactly when it opens a container inside n already open containers before any other error, and then with the recursion error; siblings never use up the allowance. Without a limit depth never causes a rejection, and the default limit is 128.',
 ['inputs','configurations'],'every payload and every limit from zero to the largest integer, or none',
 'Tests try one or two depths and limits; off-by-one errors and leaks of the allowance on particular exits (empty container, error paths, siblings) need particular shapes.',
 [PA],[('allowance','parser.rs ParseState::begin_nest/end_nest/new'),('callers','parser.rs read_tokens/read_object/read_array')],
 [('remaining depth','containers that may still be opened','parser.rs ParseState.remaining_depth')],['Parser::*_with_config','Value::from_json_with_config'])
p('C11','No input panics, overflows or loops; error positions lie in the input',
 'Parsing, tokenizing, decoding, escaping, comparing, hashing, converting and printing finish without panicking, without arithmetic overflow and without out-of-bounds access for every input that safe code can supply, memory and stack permitting (indexing operators that document a panic excepted). Every reported error position and every tokenizer position lies within the input (at most its length).',
 ['inputs','configurations','histories'],'every input text or byte sequence, configuration and sequence of public calls',
 'A fuzz target exists but is bounded and random; tests exercise particular inputs. Panics hide behind expect/unreachable/indexing that are only safe because of invariants established elsewhere.',
 [PA,ST,VA,DO,NU,ER],[('unreachable arms and expects','all modules'),('checked counters','string.rs JsonStringInfo::add_bytes*'),('cursor','parser.rs ByteIterator')],None,['all public functions'])
p('C12','Numbers keep their exact text and convert like the standard library',
 'A number literal is the longest prefix that matches the JSON number grammar (a lone zero or no leading zero, a digit after the sign, a digit after the point and in the exponent), otherwise an error; the resulting number exposes exactly the source text. Each numeric conversion returns what the standard text-to-number parse of that source returns, or none when it fails, and is none for values that are not numbers.',
 ['inputs'],'every input text containing numbers, every numeric type',
 'Tests convert a couple of numbers per type and scan a few malformed ones; the scanner has states whose errors depend on what follows the literal.',
 [NU,PA,VA],[('number scanner','parser.rs read_number_from_source'),('conversions','number.rs JsonNumber::parse/as_*, value.rs as_*')],None,['JsonNumber::source','JsonNumber::as_u8..as_f64','Value::as_u8..as_f64'])
p('C13','The tokenizer yields the token sequence and peeking never changes it',
 'Reading tokens one by one yields exactly the lexical tokens of the input in order, skipping only JSON whitespace, each call consuming exactly the bytes of its token, and reports the end only when nothing but whitespace is left. Peeking reports the kind of the following token, never alters what later calls return, and the position never moves backwards.',
 ['inputs','histories'],'every input and every interleaving of peeking and reading, including after errors',
 'One test peeks through one array; the property is about arbitrary interleavings and inputs.',
 [PA],[('dispatch','parser.rs Tokenizer::read_peek/next/next_or_eof'),('peeking','parser.rs Tokenizer::peek'),('cursor','parser.rs ByteIterator')],[('byte cursor','position of the next unread byte','parser.rs ByteIterator.offset')],['Tokenizer'])
p('C14','Lookups return the first matching member and accessors match the kind',
 'Looking up a key in an object (directly, through a value, through indexing, for reading or for modification) returns the first member whose decoded key equals it, or none if there is none; looking up an index returns that element of an array or none. Kind accessors return the contents exactly when the value has that kind, and modification through any of these touches only that element.',
 ['inputs'],'every value, key and index, with escaped, raw and duplicate keys',
 'Tests look up a few keys of one object, without duplicates or keys written with escapes in each position.',
 [VA],[('object lookup','value.rs Object::get/get_mut/get_entry_mut'),('value lookup','value.rs Value::get/get_mut/get_index/get_index_mut, Index impls'),('accessors','value.rs Value::as_*')],None,['Value::get','Value::get_index','Value[..]','Object::get'])
p('C15','Errors reach the caller with kind and position intact',
 'An error found while reading is returned with the kind and position it was raised with through every layer and every entry point, except that an end of input inside a container is reported as that container being unclosed. Parsing a lone string or number from any valid payload of another kind reports that a string (respectively number) was expected, and every error that a bounded document raises reaches the caller as raised.',
 ['inputs'],'every rejected input and every entry point',
 'There are 25 kinds converted between error types by hand-written tables; tests check the table for one direction of conversion and a few rejected inputs.',
 [ER,PA,NU,ST,DO],[('conversion tables','error.rs into_fallable/into_infallable'),('unclosed refinement','parser.rs read_tokens'),('single-kind handlers','number.rs NumberParser, string.rs StringParser')],None,['Error::kind','Error::offset','JsonString::from_json','JsonNumber::from_json'])
p('C16','Configuration switches change acceptance exactly as documented',
 'Allowing trailing commas adds exactly the payloads in which a comma may also precede the closing bracket of a container that has at least one member, with the value unchanged, and without it such payloads are rejected. Restricting the root rejects exactly the payloads whose root is neither an object nor an array; each setting is independent of the others and no other payload is affected.',
 ['inputs','configurations'],'every payload under every combination of settings',
 'Tests try one payload per switch; combinations with nesting and empty containers (where a comma directly after the opening bracket stays illegal) are not covered.',
 [PA],[('trailing comma decisions','parser.rs read_object/read_array'),('root kind check','parser.rs parse_bytes'),('builder','parser.rs ParseConfig')],None,['ParseConfig','Value::from_json_with_config','Parser::validate_json_with_config'])
p('C17','A failing destination stops the output and the failure is returned',
 'If the destination of an output function fails at some write, the function returns that failure and makes no further write, so what the destination received is a prefix of the full output. If no write fails the function succeeds.',
 ['fault_sequences','inputs'],'every value, layout and point at which the destination fails',
 'No test uses a failing destination.',
 [VA,ST],[('error propagation','value.rs WriteState, write_json_*'),('formatting','string.rs Display impls')],None,['Value::write_json_to','Value::pretty_write_json_to_custom'])
p('C18','A fixed-capacity document accepts exactly what fits',
 'Parsing into a document with bounded storage succeeds exactly when the payload is accepted by the unbounded document and its number of entries fits, with the same entries. Otherwise it fails, with the too-large error if the storage ran out before any other error, and never panics or truncates.',
 ['inputs','configurations'],'every payload and every capacity',
 'One test overflows one capacity; the property relates all payloads to all capacities.',
 [DO],[('storage abstraction','doc.rs NodeCollection'),('builder','doc.rs Nodes::push_node'),('error conversion','error.rs into_infallable')],[('node list','stored nodes, at most the capacity','doc.rs Nodes.collection')],['GenericDocument::from_json'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
