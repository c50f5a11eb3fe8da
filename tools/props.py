"""Which modules a property's proof spans, and which functions' obligations decide it."""
M1 = ['countable', 'symbol_range', 'state_machine', 'dfa_builder', 'pattern_matcher', 'symbol_range_dfa']
M2 = M1 + ['symbol_reader', 'prepare', 'matches']
M_NDFA = ['countable', 'symbol_range', 'overlapping_symbols', 'state_machine', 'ndfa']
VEC = 'a vector of elements that are not zero-sized holds fewer than usize::MAX of them'
LAWFUL = 'the symbol type\'s Ord and Clone are lawful (total order consistent with equality; a clone equals its original)'
M_DFA = ['countable', 'symbol_range', 'state_machine', 'dfa_builder', 'dfa_compiler']
M_PAT = M_NDFA + ['regular_pattern']
BOX = 'putting a machine in a box and forgetting its type leaves the machine as it is (vx_machine)'
M_ALL = M_NDFA + ['dfa_builder', 'dfa_compiler', 'pattern_matcher', 'symbol_range_dfa', 'regular_pattern', 'symbol_reader', 'prepare', 'matches']
M_TOK = M_ALL + ['tape', 'tokenizer']
SHORT = 'streams are shorter than usize::MAX/8 symbols'
STATES = 'the machines have fewer than StateId::MAX states'
STD = 'sort, sort_by and dedup, the standard collections and iterators do what the standard library documents'
PROPS = {
    'C01': dict(title="Matching returns the longest prefix in the pattern's language", level='proof',
                modules=M_ALL, targets=[r'^(matches|prepare|regular_pattern|dfa_compiler|symbol_range_dfa|pattern_matcher)::', r'^ndfa::Ndfa::fix_overlapping'],
                assumptions=[LAWFUL, BOX, STATES, STD, VEC, 'the unit type is trivially ordered', 'no range in the pattern ends before it starts, and no least count exceeds u32::MAX-2',
                             'the input has fewer than usize::MAX symbols']),
    'C02': dict(title='Pattern combinators build the languages they are named after', level='proof',
                modules=M_PAT, targets=[r'^regular_pattern::(PatternCombiner|PatternTransformer|exactly|trait Pattern|IntoPattern|trait IntoPattern)'],
                assumptions=[LAWFUL, "vectors' iterators yield their elements in order (vstd)"]),
    'C03': dict(title='Compiling a pattern to an NDFA preserves its language', level='proof',
                modules=M_PAT, targets=[r'^regular_pattern::(Pattern::compile|ToNdfa for Pattern)', r'^ndfa::(?!.*fix_overlapping)', r'^state_machine::'],
                assumptions=[LAWFUL, BOX, 'no range in the pattern ends before it starts, and no least count exceeds u32::MAX-2 (compile panics otherwise)',
                             'the machine keeps fewer than StateId::MAX states']),
    'C26': dict(title='Values used as patterns denote exactly themselves', level='proof',
                modules=M_PAT, targets=[r'^regular_pattern::(ToPattern|IntoPattern|ToNdfa|exactly|trait ToPattern|trait IntoPattern)', r'^state_machine::trait ToNdfa'],
                assumptions=[LAWFUL, BOX, "a string's chars() yields its characters in order (vx_chars)", 'the machine keeps fewer than StateId::MAX states']),
    'C04': dict(title='Determinising a state machine changes neither matches nor outputs', level='proof',
                modules=M_DFA, targets=[r'^dfa_compiler::', r'^dfa_builder::', r'^state_machine::'],
                assumptions=[LAWFUL, 'sort, sort_by and dedup do what the standard library documents', 'the derived Hash and Eq of DfaState compare the states it holds',
                             'a deterministic machine has fewer than StateId::MAX states', 'every state the machine mentions is one of its states']),
    'C05': dict(title="Splitting overlapping ranges preserves the machine's language", level='proof',
                modules=M_NDFA, targets=[r'^overlapping_symbols::', r'^symbol_range::', r'^ndfa::Ndfa::fix_overlapping', r'^ndfa::(table_split|same_goes|half_goes|joined_same|hops_same)'],
                assumptions=['every range in the machine is non-empty (SymbolRange::new refuses others)', LAWFUL]),
    'C06': dict(title='Overlapping ranges are split into a disjoint partition of the same symbols', level='proof',
                modules=['countable', 'symbol_range', 'overlapping_symbols'],
                targets=[r'^countable::', r'^symbol_range::', r'^overlapping_symbols::SymbolMap::(new|add_range|to_non_overlapping_map|order_)']),
    'C07': dict(title='Range maps remember every range added and find every overlap', level='proof',
                modules=['countable', 'symbol_range', 'overlapping_symbols'],
                targets=[r'^symbol_range::', r'^overlapping_symbols::SymbolMap::(new|add_range|find_overlapping_ranges|order_)']),
    'C08': dict(title='Range operations agree with the set of symbols a range denotes', level='proof',
                modules=['symbol_range'], targets=[r'^symbol_range::']),
    'C09': dict(title='Successor and predecessor of symbols are exact inverses with no gaps', level='proof',
                modules=['countable'], targets=[r'^countable::']),
    'C10': dict(title='A built DFA is exactly the table that was declared', level='proof',
                modules=M1, targets=[r'^dfa_builder::', r'^symbol_range_dfa::(SymbolRangeDfaBuilder|DfaBuilder for|StateMachine for)'],
                assumptions=[VEC, LAWFUL]),
    'C11': dict(title='A running matcher reports the longest accepted prefix', level='proof',
                modules=M2, targets=[r'^pattern_matcher::', r'^symbol_range_dfa::(SymbolRangeDfa::start|MatchingState for)', r'^matches::match_pattern'],
                assumptions=[VEC, LAWFUL, 'fewer than usize::MAX symbols are read']),
    'C12': dict(title='A joined state behaves as all the states it is joined to', level='proof',
                modules=M_NDFA, targets=[r'^state_machine::', r'^ndfa::(?!.*fix_overlapping)'],
                assumptions=['state numbers are below StateId::MAX (the machine counts one more than the highest)', LAWFUL, 'hash sets and maps behave as sets and maps (vstd), and iterating one by value yields its members once each (vx_members)']),
    'C13': dict(title='A tape replays exactly what was read since its last cut', level='proof',
                modules=['symbol_reader', 'tape'], targets=[r'^tape::'],
                assumptions=['streams are shorter than usize::MAX/8 symbols', 'a source reader has a finite remaining sequence that its state determines']),
    'C15': dict(title='The tokenizer returns the longest token at the current position', level='proof',
                modules=M_TOK, targets=[r'^tokenizer::(Tokenizer|ReferenceOrOwned|SymbolReader for|PrepareToMatch)', r'^tape::', r'^matches::match_pattern', r'^pattern_matcher::'],
                assumptions=[LAWFUL, VEC, STD, SHORT, 'the source reader has a finite remaining sequence that its state determines']),
    'C16': dict(title='Tokenizer iteration covers the input in order and terminates', level='proof',
                modules=M_TOK, targets=[r'^tokenizer::(Tokenizer|ReferenceOrOwned|SymbolReader for|Iterator for)', r'^tape::'],
                assumptions=[LAWFUL, VEC, STD, SHORT, 'an iterator yields what calling next again and again returns (axiom_yields)', 'the source reader has a finite remaining sequence that its state determines']),
    'C17': dict(title='When several token patterns match, the lowest output wins', level='proof',
                modules=M_TOK, targets=[r'^tokenizer::(TokenMatcher|PrepareToMatch)', r'^dfa_compiler::', r'^ndfa::', r'^regular_pattern::(Pattern::compile|ToNdfa for Pattern)', r'^prepare::'],
                assumptions=[LAWFUL, BOX, STATES, STD, 'no range in a pattern ends before it starts, and no least count exceeds u32::MAX-2 (compile panics otherwise)']),
    'C20': dict(title='Tokenizing a stream tags exactly the tokens found', level='proof',
                modules=M_TOK + ['tagged_stream'], targets=[r'^tagged_stream::', r'^tokenizer::(Tokenizer|SymbolReader for|Iterator for)'],
                assumptions=[LAWFUL, VEC, STD, SHORT, 'the mapping function is deterministic', 'an iterator yields what calling next again and again returns (axiom_yields)',
                             'the source of a stream is finite']),
    'C18': dict(title='Split readers each see the whole stream, in any interleaving', level='proof',
                modules=['symbol_reader', 'split_reader'], targets=[r'^split_reader::'],
                assumptions=['Rc<RefCell<..>> is a shared cell: whoever visits it finds what the previous visitor left (trusted stand-ins RefCell::new, vx_borrow); every visit keeps the invariant, which is proved for read and drop',
                             'the buffer holds fewer than usize::MAX-2 symbols', 'Symbol::clone returns an equal value']),
    'C19': dict(title='Tagging keeps the underlying symbols and structure', level='proof',
                modules=['countable', 'symbol_reader', 'tagged_stream'], targets=[r'^tagged_stream::'],
                assumptions=['the source of a stream is finite']),
    'C21': dict(title="Symbol readers deliver exactly their source's symbols in order", level='proof',
                modules=['symbol_reader'], targets=[r'^symbol_reader::'],
                assumptions=['standard iterators (slice, vec, str chars, io bytes) yield their items() in order', 'mapping functions are deterministic', 'a source reader has a finite remaining sequence that its state determines']),
}

NOT_APPLICABLE = {
    'C22': 'serialisation goes through serde derive macros and third-party serialisers; no deductive verifier here reaches generated code and external crates, so no contract could decide it',
}
