CLAIMS={
'C01':dict(note='Covers decode_one itself (all inputs, all branches); the iterator is covered by C03 and the harness.'),
'C02':dict(note='Covers encode; the inverse property is a lemma over both contracts.'),
'C03':dict(note='Covers GetLinesEndIndex with the iterator inlined; decode_one by its contract (it is assumed to be a function of its arguments).'),
'C04':dict(note='Covers GetLineFromMap for every sorted index.'),
'C05':dict(note='Covers both public conversions with their static helpers inlined; agreement of both with the character count is a lemma.'),
'C06':dict(note='Covers BuildCharacterIndex.'),
'C07':dict(note='Covers MapBytesRangeSet.'),
'C08':dict(note='Covers RangeSet::append; coverage is a lemma. Ranges are assumed not to wrap the address space.'),
'C09':dict(note='Covers isJSON, isJSONSchema and their comparison helper; ASCII case folding per the C locale.'),
'C10':dict(note='Covers the whole serializer; that values can be recovered (and so never collide) is a lemma over the contract.'),
'C11':dict(note='Covers both overloads; std::binary_search is modelled over the strictly sorted literal list, whose sortedness is an obligation.'),
'C26':dict(note='Covers every query, setter and constructor of both option objects (drafter.cc is parsed with declaration stubs for absent submodules).'),
'C16':dict(note='Covers every InfoElements member function with Element::clone (all 13 kinds) and the DSD copy constructors under contract; elements are mathematical trees (well-formed: collections hold no null child).'),
'C24':dict(note='Covers TypeQueryVisitor (all overloads), as<T> in every const variant and get<T>, instantiated for all 13 kinds; virtual dispatch is resolved over the final implementations.'),
'C17':dict(note='Covers begin/end/insert/erase of all five containers, the shared container interface instantiated for each, and Object find/push_back/addMember.'),
'C14':dict(note='Covers every user-written and compiler-generated copy, move, assignment and swap of all data structures and elements (self-assignment and self-swap as separate obligations), and the value constructors, set and claim.'),
'C15':dict(note='Covers operator== and != of elements, meta collections and every data structure; reflexivity, symmetry and transitivity are lemmas about the specification the code is proved equal to. Object addresses are not modelled (identical addresses imply equal values).'),
'C13':dict(note='Covers Element::clone of all 13 kinds, the deep copies it relies on, the typed clone helper and, for the comparison, operator==; elements are mathematical trees.'),
'C25':dict(note='Covers AppendInfoElement as the library instantiates it (array of strings); that an existing entry under the key is an array is its documented precondition.'),
'C22':dict(note='Covers ExpandVisitor for every element kind: inheritance layers, named types, members, selects, enumerations and references, with mutual recursion through the visitor (a context and a visitor pointing at each other) and a termination measure on the registered names not yet being expanded.'),
'C23':dict(note='Covers every named helper for every element kind it can be instantiated with, GetValue for enumerations included, and FindMemberByKey with the comparison visitor; merging of layers inside a key is by an assumed contract (C18).'),
'C21':dict(note='Covers IsExpandableVisitor for every element kind, with virtual dispatch resolved over the final implementations and a termination measure.'),
'C19':dict(note='Covers every Registry member function, the constructor with the seven base types included, isReserved and the id lookup in meta; std::map by an assumed model (distinct keys, position of a new entry unspecified); element addresses are not modelled.'),
'C20':dict(note='Covers FindRootAncestor with the registry lookup and isReserved under contract; termination by the number of registered names not yet visited (pigeonhole lemma).'),
'C18':dict(note='Equality of elements is used by its contract, proved in C15.'),
'C27':dict(note='Covers both constructors, assignment, the parent accessors and children(); the copy of the child sequence is by the contract of the node copy itself. Overlap of source and target is covered by the harness.'),
'C28':dict(note='Covers RegexMatch, RegexCaptureFirst and RegexCapture; the POSIX functions are modelled, with the number of unreleased expressions as ghost state.'),
'C34':dict(note='Covers Iterate with both strategies for every element kind, FilterVisitor and query::Element, instantiated as the library does (FilterVisitor as functor); the wiring between the traversal objects is the one their constructors establish, executed symbolically.'),
'C29':dict(note='Covers sizeOf for every element kind and the attribute queries it uses (hasTypeAttr, isVariable, definesValue, resolve), with the visitor dispatch, std::accumulate as an unbounded loop and the cardinal arithmetic by the contracts of C12; merging of extend layers is an uninterpreted function here (its contract is proved in C18).'),
'C30':dict(note='Covers both serializers with all their helpers for every value kind (variant dispatch included) and the UTF-8 codec they use: the exact text of every value, plus lemmas that a reader recovers every escaped string. std::ostream, ostream_iterator and snprintf are modelled; std::variant (absent mpark) by declaration stubs.'),
'C33':dict(note='Covers both PrintReport functions with all their helpers (PrintAnnotation, AnnotationToString, the lookups and the number conversion) and the traversal that selects the annotations, by the contracts of C03, C04 and C34; std::cerr is an explicit text passed through every function.'),
'C12':dict(note='Covers both operators; monotonicity and commutativity are lemmas.'),
}
NY='not reached yet: no contract for it has been discharged'
NA={p['id']:NY for p in props}
NA['C31']='interleavings of several threads on a stream are outside sequential function contracts; the translation has no concurrency semantics'
NA['C32']='the parser entry point (snowcrash, drafter.cc) is not part of the code built here and needs the absent boost parts; a contract over the whole parser is out of reach'
