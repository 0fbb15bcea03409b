#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)
D='packages/drafter/src/'; R=D+'refract/'; M='packages/apib-parser/src/markdown-parser/'

p('C01','UTF-8 decoding is total, safe, and accepts exactly well-formed sequences',
 'Decoding one character from any non-empty byte sequence never reads outside the sequence, always consumes at least one byte and never more than the sequence holds, and yields a value other than U+FFFD exactly when the bytes consumed are the well-formed UTF-8 encoding of that value (continuation bytes present, not overlong, no surrogate, at most 0x10FFFF; the encoding of U+FFFD itself yields U+FFFD). At the end of input it reports the end marker and consumes nothing. Iterating over any input therefore terminates after at most one step per byte.',
 ['inputs'],'every byte sequence of every length, including truncated, overlong, surrogate and stray continuation bytes',
 'The tests decode a few dozen chosen sequences; the claim is about all byte strings of any length.',
 [D+'utils/Utf8.h'],[('decode_one','utils/Utf8.h decode_one'),('validating input iterator','utils/Utf8.h input_iterator')],
 ['decoded codepoint and returned position of decode_one','sequence produced by utf8::input_iterator'])
p('C02','UTF-8 encoding is the inverse of decoding for every codepoint',
 'Encoding any Unicode scalar value appends 1 to 4 bytes that form its unique shortest UTF-8 sequence, changes nothing else, and decoding those bytes (whatever follows them) returns the same value and consumes exactly those bytes.',
 ['inputs'],'all 1,112,064 scalar values, any output already written, any bytes following',
 'Tests round-trip a handful of codepoints.',
 [D+'utils/Utf8.h'],[('encode','utils/Utf8.h encode'),('decode_one','utils/Utf8.h decode_one')],['bytes written by encode','decode_one(encode(c))'])
p('C03','The line index lists exactly the line starts of the source, in characters',
 'For any source text, the line index starts with 0 and then holds, in increasing order, for every line feed of the text the number of characters up to and including it; nothing else. Characters are counted as the UTF-8 decoder delivers them.',
 ['inputs'],'every source string: empty, without or with trailing newline, multi-byte, malformed UTF-8',
 'Tests cover three ASCII/accented samples.',
 [D+'SourceMapUtils.cc'],[('GetLinesEndIndex','SourceMapUtils.cc GetLinesEndIndex')],['returned NewLinesIndex'])
p('C04','Character ranges map to the right line and column without invalid access',
 'For any line index and any character range the mapping to line/column reads only inside the index and always returns. If the start lies before the last indexed line start, the reported start line is the one containing it and the column is its 1-based offset in that line; the reported end line and column designate the last character of the range (offset from the start of that line), except that a range ending beyond the last indexed line start is reported as ending on the last indexed line, column 1. An empty index gives all zeros.',
 ['inputs'],'every strictly increasing line index and every (location, length) pair, including location 0 with length 0, ranges past the end and huge values',
 'Tests use a few ranges on fixed documents; empty ranges at position 0 and overflow are never tried.',
 [D+'SourceMapUtils.cc',D+'reporting.cc'],[('GetLineFromMap','SourceMapUtils.cc GetLineFromMap')],['AnnotationPosition returned'])
p('C05','Byte-to-character range conversion is memory-safe and counts characters',
 'Converting byte ranges to character ranges yields one character range per byte range and never reads outside the buffer or the character index, whatever the ranges and whatever the bytes. For well-formed UTF-8 text without NUL (and an index built from it) and a range that starts and ends at character boundaries, the result location is the number of characters before the range and the length the number of characters in it; a range reaching past the end is treated as ending at the end.',
 ['inputs'],'every buffer (including truncated multi-byte tails), every range set, both the direct and the indexed conversion',
 'The conversion has no unit test in the buildable suite; parser tests only feed well-formed text and in-range maps.',
 [M+'ByteBuffer.cc'],[('BytesRangeSetToCharactersRangeSet (two overloads)','ByteBuffer.cc'),('strnlen_utf8','ByteBuffer.cc')],['returned CharactersRangeSet','sanitizer-visible memory accesses'])
p('C06','The byte-to-character index is in bounds and monotone for every buffer',
 'Building the character index for any buffer writes only inside the index, gives it exactly one entry per byte, and entry i is the ordinal of the character that byte i belongs to: entries start at 0, never decrease and grow by at most one per byte, increasing exactly at character starts (up to the first NUL byte).',
 ['inputs'],'every byte buffer including truncated multi-byte sequences at the end',
 'No buildable test covers it; a truncated last character needs a specific input.',
 [M+'ByteBuffer.cc'],[('BuildCharacterIndex','ByteBuffer.cc BuildCharacterIndex')],['contents and size of the index'])
p('C07','Mapping a byte range set returns exactly the selected bytes',
 'Mapping a set of byte ranges onto a buffer returns the concatenation, in order, of the selected substrings when all lie in the buffer; a range overshooting the end by exactly one byte is cut at the end and finishes the result; any other out-of-range set yields the empty buffer. It never reads outside the buffer nor throws.',
 ['inputs'],'every buffer and every list of ranges, including empty, out of range and overflowing ones',
 'Only indirectly exercised on well-formed maps.',
 [M+'ByteBuffer.cc'],[('MapBytesRangeSet','ByteBuffer.cc MapBytesRangeSet')],['returned ByteBuffer'])
p('C08','Appending range sets preserves coverage and merges only adjacent ranges',
 'Appending a range set to another keeps every earlier range except that the last one grows by the length of the first appended one exactly when they are adjacent; all other appended ranges follow unchanged and in order. So the list of covered positions is the concatenation of both lists.',
 ['inputs'],'every pair of range lists (empty, single, many, adjacent, overlapping, equal)',
 'Not covered by any buildable test; needs all combinations of list shapes.',
 [M+'ByteBuffer.h'],[('RangeSet::append','ByteBuffer.h RangeSet::append')],['contents of the target set'])
p('C09','Media type classification is exact and case-insensitive',
 'A media type is classified as JSON exactly when its type is "application" and its structured-syntax suffix (or, without suffix, its subtype) is "json", and as JSON Schema exactly when it is application/schema+json, all compared ASCII-case-insensitively over the full strings; parameters never matter.',
 ['inputs'],'all media types: any strings, including prefixes, longer strings and embedded NUL',
 'Tests try a short table of media types.',
 ['packages/apib/src/MediaType.cc'],[('isJSON / isJSONSchema / iequal','MediaType.cc')],['isJSON','isJSONSchema'])
p('C10','Media type serialization is unambiguous and properly quoted',
 'A media type with non-empty type and subtype is written as type/subtype[+suffix] followed by "; key=value" for every parameter with a non-empty key in order, and nothing is written otherwise. A parameter value is written verbatim when it contains no special, white-space or control character, and otherwise as a quoted string from which the original value can be recovered exactly; so distinct parameter values never serialize alike.',
 ['inputs'],'every type/subtype/suffix and every parameter list, values over all bytes',
 'Tests serialize about ten media types; recoverability is over all strings.',
 [D+'backend/MediaTypeS11n.cc'],[('operator<< for media_type','MediaTypeS11n.cc'),('quoting','MediaTypeS11n.cc s8_value')],['text written to the stream'])
p('C11','Exactly the thirteen base type names are reserved',
 'A name is reported as reserved exactly when it is one of array, boolean, enum, extend, generic, member, null, number, object, option, ref, select, string; comparison is exact and case-sensitive.',
 ['inputs'],'all strings','A test can only sample non-members; the lookup is a binary search whose answer depends on ordering and comparison for every string.',
 [R+'Element.cc'],[('isReserved','Element.cc')],['isReserved result'])
p('C12','Cardinality arithmetic saturates and never turns many into few',
 'Adding or multiplying cardinalities gives the mathematical sum or product of the operands when it is finite and representable, and "open" (unbounded) whenever an operand is open (except zero times anything, which is zero) or the result does not fit; operations are commutative and monotone. A non-zero count never becomes empty through overflow.',
 ['inputs'],'all pairs of 32-bit cardinalities',
 'The tests that exist cannot be built here and use small numbers; overflow needs operands above 65535.',
 [R+'Cardinal.h'],[('operator+, operator*','Cardinal.h')],['cardinal values'])
p('C13','Cloning an element copies exactly what the flags ask for',
 'Cloning any element with any flag combination gives an element of the same kind whose name, attributes, meta and value (with its set/unset state) equal the original where the corresponding flag is given, are the defaults where it is not, and whose meta lacks "id" exactly when its removal was asked for; the original is unchanged. A full clone compares equal to its original.',
 ['inputs','programs'],'all element trees of any depth and kind, all flag combinations',
 'Tests clone a few flat elements with a few flag sets.',
 [R+'Element.h',R+'InfoElements.cc',R+'dsd/'],[('Element<T>::clone','Element.h'),('copying of data structures','dsd/*.cc'),('copying of info elements','InfoElements.cc')],['cloned tree'])
p('C14','Copy, move and assignment of data structures preserve content',
 'Copying any data structure of any kind yields one with the same children in the same order, each a deep copy; moving or assigning transfers the full content of the source to the target regardless of what the target held, and (self-)assignment and swap lose nothing.',
 ['inputs','histories'],'all data-structure kinds and contents, any sequence of copy/move/assign/swap',
 'Tests check a few instances per kind.',
 [R+'dsd/',R+'InfoElements.cc'],[('copy/move constructors and operator=','dsd/*.cc, InfoElements.cc')],['children of the copy'])
p('C15','Structural equality is exact: kind, set-state, attributes, meta and value',
 'Two elements compare equal exactly when they have the same kind, the same set/unset state, equal attributes and equal meta (same keys and equal values in the same order), and, if set, equal values (children pairwise equal in order). The comparison is total (also on freshly constructed elements), reflexive, symmetric and transitive, and inequality is its negation; the name is not compared.',
 ['inputs'],'all pairs of element trees',
 'Tests compare some dozen pairs; an equivalence law is over all pairs and triples.',
 [R+'Utils.cc',R+'dsd/'],[('operator== on elements and info elements','Utils.cc'),('operator== per data structure','dsd/*.cc')],['== and != results'])
p('C16','Meta and attribute collections behave as insertion-ordered maps',
 'Setting a key replaces the value of that key in place or appends a new last entry, leaving every other entry and the order untouched, so keys stay unique; finding returns the entry of that key or the end; erasing removes all and only entries of that key; claiming hands out the value and removes its entry; cloning or copying appends or yields deep copies of all entries in order.',
 ['inputs','histories'],'all sequences of operations with any keys and values',
 'Tests run a few short operation sequences.',
 [R+'InfoElements.cc',R+'InfoElements.h'],[('InfoElements operations','InfoElements.cc')],['entries seen by iteration'],[('elements','ordered list of (key, element)','InfoElements.h')])
p('C17','Container data structures insert and erase exactly what is asked',
 'Inserting a child at a position puts it there and shifts the rest; push-back appends (for an object, pushing or adding a member with a text key first removes the earliest member of that key); looking up a member by name returns the first with that text key or the end; erasing a position or a range removes exactly those children; clearing leaves none; size and emptiness always agree with the sequence seen by iteration.',
 ['inputs','histories'],'arrays, objects, extends, options and selects of any content; every position or range',
 'Tests use containers of up to three children.',
 [R+'dsd/Array.cc',R+'dsd/Object.cc',R+'dsd/Extend.cc',R+'dsd/Option.cc',R+'dsd/Select.cc',R+'dsd/Traits.h'],[('insert/erase/push_back/clear/size','dsd/*.cc, dsd/Traits.h')],['child sequence'])
p('C18','Merging inheritance layers: later layers win, nothing unrelated is lost',
 'Merging the layers of an extend element gives an element of the common kind: primitive values come from the last layer that sets one; object members whose textual key is already present (in a member, or in an option of a select) and references to a symbol already referred to replace the earlier one in place, all others are appended in order; the items of arrays are concatenated, also when the first layer sets none; of the enumerations of enums (where present, arrays) re-listed entries move to the end; meta and attributes of later layers override by key, except that id, prefix and namespace stay those of the first layer. The layers themselves are not modified; merging no layers gives nothing, and layers of different kinds are rejected.',
 ['inputs'],'all lists of layers of mergeable kinds with any content',
 'Tests merge two or three hand-written layers.',
 [R+'dsd/Extend.cc'],[('Extend::merge, ElementMerge, ValueMerge, InfoMerge','dsd/Extend.cc')],['merged element'])
p('C19','The type registry adds, finds and removes exactly by id',
 'A fresh registry holds exactly the seven base types. Adding an element stores it under its id unless that id is reserved or missing (rejected with an error, registry unchanged) or already taken (refused, existing entry kept); finding returns the stored element of that exact name or nothing; removing deletes that name only.',
 ['inputs','histories'],'all sequences of add, find, remove and clear with any names',
 'Tests add and find a couple of types.',
 [R+'Registry.cc'],[('Registry','Registry.cc')],['find results','add/remove return values and exceptions'])
p('C20','Walking a type ancestry always terminates',
 'Looking up the root ancestor of any name in any registry terminates, including registries whose types inherit from one another in a cycle, and returns the last registered type reached by following parent names (the walk stops at a reserved or unknown parent name and at one already visited), or nothing when the name is unknown.',
 ['inputs','histories'],'all registries, including cyclic inheritance of any length',
 'Tests use acyclic chains of two or three types.',
 [R+'Registry.cc'],[('FindRootAncestor','Registry.cc')],['returned element; termination'])
p('C21','An element is reported expandable exactly when something in it needs expansion',
 'An element is reported expandable exactly when its own name is not a reserved base type, or it is a reference, or one of the children, key, value or enumerations it holds is expandable, to any depth; the check never dereferences an absent part.',
 ['inputs'],'all element trees of any depth, including unset and partially set ones',
 'Tests expand small fixed trees.',
 [R+'IsExpandableVisitor.cc'],[('IsExpandableVisitor','IsExpandableVisitor.cc')],['IsExpandableVisitor::get()'])
p('C22','Expansion terminates on every registry and resolves every known name',
 'Expanding any element against any registry terminates, whatever its inheritance cycles and recursive members, and changes neither the element nor the registry. The result is nothing for null and holder elements, for texts, numbers and booleans under a reserved name, and for members, selects and collections that hold nothing expandable; otherwise it is a new element in which every part that needs it is expanded in its place and every other part is kept. An element with a non-reserved name becomes an extend element (with the id of the element) whose layers are the registered ancestors of that name, root first, each expanded, without id and referring to its name (none when they inherit from one another in a cycle), followed by the element itself with its parts expanded; a name met again inside its own expansion gives the meta and attributes of its root ancestor, without value, referring to that name. A reference gains the expansion of the type it names (none when unknown), and a type that includes itself by such references is reported as an error.',
 ['inputs','histories'],'all element trees without null entries (the options of a select under their reserved name) and all registries',
 'Tests expand a few fixtures.',
 [R+'ExpandVisitor.cc'],[('ExpandVisitor','ExpandVisitor.cc')],['expanded tree'])
p('C23','Lookup helpers return the documented value by precedence',
 'Asking an element for its effective value returns the element itself when set, else its first sample, else its default, else nothing when it is nullable and itself otherwise (an enumeration: its sample, its default, its own value, then the first of its enumerations with a value); type-attribute, variable-property, default, sample, description, member-by-key and key-as-string queries return exactly the matching stored element (first match in order) or nothing, and never access an absent part.',
 ['inputs'],'all element trees, including attributes of unexpected kinds',
 'Tests cover single happy paths.',
 [R+'VisitorUtils.h',R+'VisitorUtils.cc',R+'ComparableVisitor.cc'],[('GetValue, HasTypeAttribute, GetDefault, GetSample, FindMemberByKey, GetKeyAsString, IsLiteral','VisitorUtils.h/.cc')],['returned pointers and strings'])
p('C24','Dynamic type queries agree with the actual kind',
 'Querying an element as a given kind returns that same element exactly when it is of that kind and nothing otherwise (also for a null pointer); the reported kind of every element is its own and no other.',
 ['inputs'],'all elements of all thirteen kinds against all kinds','Tests query two or three kinds.',
 [R+'TypeQueryVisitor.cc',R+'TypeQueryVisitor.h'],[('TypeQueryVisitor','TypeQueryVisitor.h/.cc')],['TypeQueryVisitor::as, get'])
p('C25','Appending an info element adds the given value exactly once',
 'Appending a value under a key leaves, afterwards, an array under that key which contains that value: newly created with just that value when the key was absent, unchanged when the value was already there, and otherwise with the value added at the end; other keys and values are untouched.',
 ['inputs','histories'],'all collections, keys and values','The only use in tests appends the value "fixed".',
 [R+'InfoElementsUtils.h'],[('AppendInfoElement','InfoElementsUtils.h')],['collection after the call'])
p('C26','Option accessors reflect exactly the options that were set',
 'Each option query returns the value set through the matching setter on that option object and the documented default for a null or fresh object; setting one option never changes another.',
 ['inputs','histories'],'all combinations and orders of options, null options',
 'Tests set one option at a time.',
 [D+'options.cc',D+'options.h'],[('flag accessors','options.cc')],['return values of the accessors'])
p('C27','Copying a markdown tree yields an equal, independent tree',
 'Copying or assigning a markdown node (to itself or from one of its own descendants included) gives the target the same type, text, data, source map, parent link and, recursively, children as the source had, without touching freed memory; later changes to either tree do not affect the other.',
 ['inputs','histories'],'all trees of any depth; all aliasing situations between target and source',
 'No buildable test copies a tree with children.',
 [M+'MarkdownNode.cc'],[('copy constructor, operator=','MarkdownNode.cc')],['node fields after the copy'])
p('C28','Regular-expression capture returns the matched substrings and releases memory',
 'Matching returns true exactly when the POSIX extended expression compiles and matches the (non-empty) target; capturing then returns exactly the requested number of groups, each the matched substring or empty when that group did not take part, and otherwise returns false with no groups; every compiled expression is released on every path.',
 ['inputs','fault_sequences'],'all targets and expressions, including invalid ones and failures of compilation or execution',
 'Tests match a few literals.',
 ['packages/apib-parser/src/snowcrash/posix/RegexMatch.cc'],[('RegexMatch, RegexCapture','RegexMatch.cc')],['return values, capture groups, regcomp/regfree balance'])
p('C29','Type size (number of values) follows the composition rules',
 'The computed number of values of a type follows its structure: null has one; a string or number one when it is fixed, or when an enclosing element is fixed and it defines a value (content, sample or default), and is open otherwise; a boolean likewise one, otherwise two; an object or array that is fixed, itself or through an enclosing element, the product over its members or items, all taken as fixed (one when it has no content); an object with fixed-type the product over its members, not taken as fixed; other objects and arrays are open, except an array with fixed-type without content, which has none; a member has the size of its value, times open when its key is variable; an enum the sum over its enumerations, a select the sum over its options, an option the product over its members; a holder, a resolved reference and an extend the size of the held, resolved and merged element; missing content, a missing value and an unresolved reference count none; nullable adds one to a string, number, boolean, object, array, non-empty enum or member with a value. Sums and products saturate at open, and the computation ends without a crash on every finite tree without unset children.',
 ['inputs'],'all element trees with collections free of null children, resolved or unresolved references, any attributes (layers of an extend mergeable)','The existing size tests cannot be built here and use tiny trees.',
 [R+'ElementSize.cc',R+'ElementUtils.cc',R+'Cardinal.h'],[('sizeOf','ElementSize.cc'),('hasTypeAttr, isVariable, definesValue, resolve','ElementUtils.cc')],['cardinal returned'])
p('C30','JSON and YAML output is escaped so that it reads back unchanged',
 'JSON text: null, true, false and numbers are written as they are; strings and member keys are quoted and escaped so that a conforming reader recovers exactly the original bytes and stops at the closing quote; members and items appear once each, in order, separated by single commas and enclosed in braces or brackets, without white space when packed, otherwise each on its own line indented by two spaces per level. YAML text: strings and keys holding well-formed UTF-8 are double-quoted and escaped so that a conforming (YAML 1.2 core schema) reader recovers exactly the original, except that a key of one or more ASCII letters which does not read as null, true or false is written plain; members and items appear once each, in order, one per line, indented by two spaces per level, empty collections as {} or []. Structural characters of the output never come from unescaped content.',
 ['inputs'],'JSON: all values with strings over all bytes; YAML: all values with strings over all well-formed UTF-8; nesting depth and collection sizes below 2^31-1','The serializer tests cannot be built here and use a dozen strings.',
 [D+'utils/so/JsonIo.cc',D+'utils/so/YamlIo.cc'],[('serialize_json','JsonIo.cc'),('serialize_yaml','YamlIo.cc'),('encode','Utf8.h')],['serialized text'])
p('C31','Concurrent log output never interleaves within one message',
 'Messages logged from several threads appear whole, each on its own line, whatever the interleaving of the threads.',
 ['schedules'],'all thread schedules','A test observes a few schedules only.',
 [D+'utils/log/Trivial.cc',D+'utils/log/Trivial.h'],[('scoped lock around the stream','log/Trivial.h')],['stderr content'])
p('C32','Parsing any byte sequence terminates with a result or reported error',
 'Parsing any API Blueprint source, whatever its bytes and size, terminates without crash and returns either an element tree or an error annotation whose source-map ranges lie within the source.',
 ['inputs'],'all byte strings as blueprint source','Fixture tests run a few hundred documents.',
 [D+'drafter.cc','packages/apib-parser/src/snowcrash/snowcrash.cc'],[('drafter_parse_blueprint','drafter.cc')],['drafter C API results'])
p('C33','Annotation reports print each annotation with its correct position',
 'The report of a parse result is, on standard error, a line feed, the line `OK.` when the error code is zero, then exactly one line for each direct child named annotation, in order: its severity (the single class) followed by `: `, its code as `(code)  `, its message, and for each source range its position, either as location:length (the first introduced by ` :`, further ones by `;`) or, when line numbers are asked for, as the line and column span computed from the source text (numbers of a range read as 64-bit integers); parts an annotation lacks or holds in another shape are left out without failure. The report of the parser is likewise a line feed, then `OK.` or the line of the error, then the line of each warning in order, each with label, nonzero code, message and every source range.',
 ['inputs'],'all annotation sets and sources','Only a few annotations are ever printed in tests, and their output is not checked.',
 [D+'reporting.cc'],[('PrintReport','reporting.cc')],['text written to stderr'])
p('C34','Traversal visits every reachable element exactly once, in document order',
 'Recursive traversal applies the functor to the element and then, exactly once and in document order, to every present element reached through the contents of arrays, objects, options, selects and extends and the keys and values of members; child traversal applies it exactly once, in order, to each present direct child in the content of such a collection and to nothing else; filtering selects exactly the visited elements satisfying the predicate, in visiting order, and selection by name compares the whole name.',
 ['inputs'],'all element trees including absent keys, values and unset elements','Tests traverse two small trees.',
 [R+'Iterate.h',R+'FilterVisitor.h',R+'Query.cc'],[('Iterate, FilterVisitor','Iterate.h, FilterVisitor.h')],['sequence of visited elements'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
