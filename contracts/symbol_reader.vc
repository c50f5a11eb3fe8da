@@ prelude
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(F)]
pub struct ExFilterMap<I, F>(FilterMap<I, F>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct ExBytes<R>(Bytes<R>);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
#[verifier::external_trait_specification]
pub trait ExRead { type ExternalTraitSpecificationFor: Read; }

/// trusted: `bytes()` yields the reader's content, byte by byte
pub trait VxRead: Sized + Read {
    spec fn content(&self) -> Seq<std::io::Result<u8>>;
    fn vx_bytes(self) -> (r: Bytes<Self>)
        ensures r.items() == self.content();
}
impl<R: Read> VxRead for R {
    uninterp spec fn content(&self) -> Seq<std::io::Result<u8>>;
    #[verifier::external_body]
    fn vx_bytes(self) -> (r: Bytes<R>) { self.bytes() }
}
/// the symbols before the first failure
pub open spec fn ok_prefix(s: Seq<std::io::Result<u8>>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { match s[0] { Ok(b) => seq![b] + ok_prefix(s.drop_first()), Err(_) => seq![] } }
}
/// the function can be given these symbols, and has one answer for each
pub open spec fn lawful_over<F, I, O>(f: F, s: Seq<I>) -> bool where F: FnMut(I) -> O {
    &&& forall|i: int| 0 <= i < s.len() ==> call_requires(f, (#[trigger] s[i],))
    &&& forall|x: I, a: O, b: O| #[trigger] call_ensures(f, (x,), a) && #[trigger] call_ensures(f, (x,), b) ==> a == b
}
pub open spec fn image<F, I, O>(f: F, x: I) -> O where F: FnMut(I) -> O { choose|o: O| call_ensures(f, (x,), o) }
pub open spec fn images<F, I, O>(f: F, s: Seq<I>) -> Seq<O> where F: FnMut(I) -> O { s.map_values(|x: I| image::<F, I, O>(f, x)) }

/// what a reader that can go back keeps: how far it is in its source, what it could replay, and whether it has seen the end
#[verifier::accept_recursive_types(S)]
pub struct Hist<S> { pub pos: int, pub back: Seq<S>, pub ended: bool }
/// m symbols were read
pub open spec fn advanced<S>(h0: Option<Hist<S>>, rest0: Seq<S>, h1: Option<Hist<S>>, rest1: Seq<S>, m: int) -> bool {
    &&& 0 <= m <= rest0.len()
    &&& h0 is Some ==> h1 is Some && h1.unwrap().pos == h0.unwrap().pos + m && h1.unwrap().back == h0.unwrap().back + rest0.take(m)
            && (h0.unwrap().ended ==> h1.unwrap().ended) && rest1 == rest0.skip(m)
}
/// one symbol, or none
pub proof fn advanced_step<S>(h0: Option<Hist<S>>, rest0: Seq<S>, h1: Option<Hist<S>>, rest1: Seq<S>, r: Option<S>)
    requires
        h0 is Some, h1 is Some, h0.unwrap().ended ==> h1.unwrap().ended,
        r is None ==> rest0.len() == 0 && rest1.len() == 0 && h1.unwrap().pos == h0.unwrap().pos && h1.unwrap().back == h0.unwrap().back,
        r is Some ==> rest0 == seq![r.unwrap()] + rest1 && h1.unwrap().pos == h0.unwrap().pos + 1 && h1.unwrap().back == h0.unwrap().back.push(r.unwrap()),
    ensures advanced(h0, rest0, h1, rest1, if r is Some { 1 } else { 0 }),
{
    if r is Some { assert(rest0.take(1) =~= seq![r.unwrap()]); assert(rest0.skip(1) =~= rest1); assert(h0.unwrap().back + rest0.take(1) =~= h1.unwrap().back); }
    else { assert(rest0.take(0) =~= seq![]); assert(rest0.skip(0) =~= rest1); assert(h0.unwrap().back + rest0.take(0) =~= h1.unwrap().back); }
}
@@ items trait SymbolReader
    /// for readers that keep what they delivered
    open spec fn hist(&self) -> Option<Hist<Symbol>> { None }
    /// the symbols this reader will deliver before it first reports the end
    spec fn rest(&self) -> Seq<Symbol>;
    /// whatever the reader needs to be usable
    spec fn rd_ok(&self) -> bool;
    /// it stays usable after it has reported the end
    open spec fn lasting(&self) -> bool { true }

@@ fn trait SymbolReader::next_symbol
@ret r
@spec
    requires old(self).rd_ok(),
    ensures
        r is Some || old(self).lasting() ==> final(self).rd_ok(),
        final(self).lasting() == old(self).lasting(),
        old(self).rest().len() == 0 ==> r is None,
        old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first(),
        old(self).hist() is Some ==> advanced(old(self).hist(), old(self).rest(), final(self).hist(), final(self).rest(), if r is Some { 1 } else { 0 }),
        old(self).hist() is Some && r is None ==> final(self).hist().unwrap().ended,

@@ items trait SymbolSource
    spec fn symbols(&self) -> Seq<Symbol>;
    spec fn src_ok(&self) -> bool;
@@ fn trait SymbolSource::read_symbols
@ret r
@spec
    requires self.src_ok(),
    ensures r.rd_ok(), r.rest() == self.symbols(),

@@ items SymbolSource for &Vec
    open spec fn symbols(&self) -> Seq<Symbol> { self@ }
    open spec fn src_ok(&self) -> bool { lawful_clone::<Symbol>() }
@@ fn SymbolSource for &Vec::read_symbols
@ret r
@rewrite method iter vx_iter
@end
    proof { assert(vx_r.rest() =~= self@); }

@@ items SymbolReader for Iter
    open spec fn rest(&self) -> Seq<Symbol> { self.items().map_values(|x: &Symbol| *x) }
    open spec fn rd_ok(&self) -> bool { lawful_clone::<Symbol>() }
@@ fn SymbolReader for Iter::next_symbol
@ret r
@rewrite method next vx_next
@end
    proof { if old(self).rest().len() > 0 { assert(self.rest() =~= old(self).rest().drop_first()); } }

@@ items SymbolReader for FilterMap
    open spec fn rest(&self) -> Seq<Symbol> { self.items() }
    open spec fn rd_ok(&self) -> bool { lawful_clone::<Symbol>() }
@@ fn SymbolReader for FilterMap::next_symbol
@ret r
@rewrite method next vx_next

@@ fn ByteSymbolReader::new
@ret r
@spec
    ensures r.bytes == bytes,
@@ fn ByteSymbolReader::from
@ret r
@rewrite method bytes vx_bytes
@spec
    ensures r.rest() == ok_prefix(reader.content()),
@@ items SymbolReader for ByteSymbolReader
    open spec fn rest(&self) -> Seq<u8> { ok_prefix(self.bytes.items()) }
    open spec fn rd_ok(&self) -> bool { true }
@@ fn SymbolReader for ByteSymbolReader::next_symbol
@ret r
@rewrite method next vx_next
@start
    proof { reveal_with_fuel(ok_prefix, 2); }
@end
    proof { if old(self).rest().len() > 0 { assert(self.rest() =~= old(self).rest().drop_first()); } }

@@ items SymbolSource for &str
    open spec fn symbols(&self) -> Seq<char> { self@ }
    open spec fn src_ok(&self) -> bool { true }
@@ fn SymbolSource for &str::read_symbols
@ret r
@rewrite method chars vx_chars

@@ items SymbolReader for Chars
    open spec fn rest(&self) -> Seq<char> { self.items() }
    open spec fn rd_ok(&self) -> bool { true }
@@ fn SymbolReader for Chars::next_symbol
@ret r
@rewrite method next vx_next

@@ items SymbolReader for Box
    open spec fn rest(&self) -> Seq<Symbol> { (**self).rest() }
    open spec fn rd_ok(&self) -> bool { (**self).rd_ok() }
    open spec fn lasting(&self) -> bool { (**self).lasting() }

@@ items trait ReaderToVector
    spec fn vec_rest(&self) -> Seq<Symbol>;
    spec fn vec_ok(&self) -> bool;
@@ fn trait ReaderToVector::to_vec
@ret r
@spec
    requires old(self).vec_ok(),
    ensures r@ == old(self).vec_rest(),
@@ items ReaderToVector for Reader
    open spec fn vec_rest(&self) -> Seq<Symbol> { self.rest() }
    open spec fn vec_ok(&self) -> bool { self.rd_ok() }
@@ fn ReaderToVector for Reader::to_vec
@ret r
@after let result
    let ghost all = self.rest();
    proof { assert(all.skip(0) =~= all); assert(all.take(0) =~= result@); }
@loop 0
    invariant_except_break
        self.rd_ok(),
        self.rest() == all.skip(result@.len() as int),
    invariant
        all == old(self).rest(),
        result@.len() <= all.len(),
        result@ == all.take(result@.len() as int),
    ensures
        result@ == all,
    decreases self.rest().len(),
@loop 0 end
    proof {
        assert(result@ =~= all.take(result@.len() as int));
        assert(self.rest() =~= all.skip(result@.len() as int));
    }

@@ fn trait MapSymbolReader::map_symbols
@ret r
@spec
    requires self.rd_ok(), lawful_over::<MapFunction, Symbol, OutputSymbol>(mapping_function, self.rest()),
    ensures r.rd_ok(), r.rest() == images::<MapFunction, Symbol, OutputSymbol>(mapping_function, self.rest()),
@@ items SymbolReader for MappedStream
    open spec fn hist(&self) -> Option<Hist<OutputSymbol>> { None }
    open spec fn rest(&self) -> Seq<OutputSymbol> { images::<MapFunction, InputSymbol, OutputSymbol>(self.mapping_function, self.source_stream.rest()) }
    open spec fn rd_ok(&self) -> bool { self.source_stream.rd_ok() && lawful_over::<MapFunction, InputSymbol, OutputSymbol>(self.mapping_function, self.source_stream.rest()) }
    open spec fn lasting(&self) -> bool { self.source_stream.lasting() && forall|x: InputSymbol| #[trigger] call_requires(self.mapping_function, (x,)) }
@@ fn SymbolReader for MappedStream::next_symbol
@ret r
@end
    proof { if old(self).rest().len() > 0 { assert(self.rest() =~= old(self).rest().drop_first()); } }

@@ fn VecReader::from_vec
@ret r
@spec
    ensures r.rd_ok(), r.rest() == vec@,
@end
    proof { assert(vec@.reverse().reverse() =~= vec@); }
@@ items SymbolReader for VecReader
    open spec fn rest(&self) -> Seq<Symbol> { self.symbols@.reverse() }
    open spec fn rd_ok(&self) -> bool { true }
@@ fn SymbolReader for VecReader::next_symbol
@ret r
@end
    proof { if old(self).rest().len() > 0 { assert(self.rest() =~= old(self).rest().drop_first()); } }
