// a 64-bit target is assumed (lengths are cast between u64 and usize)
global size_of usize == 8;
// ---- ParserData: the data cursor. Cow<[u8]> is modelled as a slice and Cell<usize> as a plain usize, so methods that
// move the position take &mut self here (an interior-mutability rewrite listed in the evidence).
/*@ config
pre: self . position . get ( ) =>> self.position
pre: self . position . set ( position ) ; =>> self.position = position;
pre: b"" =>> empty_bytes()
pre: std :: cmp :: min =>> vx_min64
pre: Cell :: new ( 0 ) =>> 0
presig: input : & ParserData =>> input: &mut ParserData
presig: data : & ParserData =>> data: &mut ParserData
@*/
/*@ item connection_parser.rs::ParserData
subst: Cow < 'a , [ u8 ] > =>> &'a [u8]
subst: Cell < usize > =>> usize
@*/
pub fn min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vx_min64(a: u64, b: u64) -> (r: u64) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
impl<'a> ParserData<'a> {
    /// number of bytes the chunk stands for (a gap has a length and no bytes)
    pub open spec fn total(&self) -> nat { if self.gap_len is Some { self.gap_len->0 as nat } else if self.data is Some { self.data->0@.len() } else { 0 } }
    /// the cursor never leaves the data
    pub open spec fn wf(&self) -> bool { self.position <= self.total() && (self.gap_len is Some ==> self.data is None) }
    pub open spec fn left(&self) -> nat { (self.total() - self.position) as nat }
    /// the bytes not yet consumed
    pub open spec fn rest(&self) -> Seq<u8> { if self.data is Some { self.data->0@.subrange(self.position as int, self.data->0@.len() as int) } else { Seq::empty() } }
    /// only the cursor differs
    pub open spec fn same(&self, o: &ParserData<'a>) -> bool { self.data == o.data && self.gap_len == o.gap_len && self.callback_position == o.callback_position }
    pub open spec fn at(&self, o: &ParserData<'a>, p: int) -> bool { self.same(o) && self.position == p }
}
/*@ fn connection_parser.rs::ParserData::data
presig: Option < & [ u8 ] > =>> Option<&'a [u8]>
ret: r
spec:
    requires self.wf(),
    ensures r is Some == self.data is Some, r is Some ==> r->0@ == self.rest(),
@*/
/*@ fn connection_parser.rs::ParserData::as_slice
presig: -> & [ u8 ] =>> -> &'a [u8]
ret: r
spec:
    requires self.wf(),
    ensures r@ == self.rest(),
@*/
/*@ fn connection_parser.rs::ParserData::len
ret: r
spec:
    requires self.wf(),
    ensures r == self.left(),
@*/
/*@ fn connection_parser.rs::ParserData::consumed_len
ret: r
spec:
    ensures r == self.position,
@*/
/*@ fn connection_parser.rs::ParserData::is_gap
ret: r
spec:
    ensures r == self.gap_len is Some,
@*/
/*@ fn connection_parser.rs::ParserData::is_empty
ret: r
spec:
    requires self.wf(),
    ensures r == (self.left() == 0),
@*/
/*@ fn connection_parser.rs::ParserData::set_position
presig: & self =>> &mut self
spec:
    ensures final(self).at(old(self), position as int),
@*/
/*@ fn connection_parser.rs::ParserData::consume
presig: & self =>> &mut self
spec:
    requires old(self).position + consumed <= usize::MAX,
    ensures final(self).at(old(self), old(self).position + consumed),
@*/
/*@ fn connection_parser.rs::ParserData::unconsume
presig: & self =>> &mut self
spec:
    ensures final(self).at(old(self), if unconsume <= old(self).position { old(self).position - unconsume } else { 0 }),
@*/
pub open spec fn fresh_data<'a>(data: Option<&'a [u8]>, gap: Option<usize>) -> ParserData<'a> { ParserData { data, gap_len: gap, position: 0, callback_position: 0 } }
impl<'a> ParserData<'a> {
/*@ fn connection_parser.rs::From<Option<&'a[u8]>>::ParserData::from
noimpl:
subst: fn from =>> fn from_opt
pre: data . map ( Cow :: Borrowed ) =>> data
ret: r
spec:
    ensures r == fresh_data(data, None),
@*/
/*@ fn connection_parser.rs::From<&'a[u8]>::ParserData::from
noimpl:
subst: fn from =>> fn from_slice
pre: Cow :: Borrowed ( data ) =>> data
ret: r
spec:
    ensures r == fresh_data(Some(data), None),
@*/
/*@ fn connection_parser.rs::From<usize>::ParserData::from
noimpl:
subst: fn from =>> fn from_gap
ret: r
spec:
    ensures r == fresh_data(None, Some(gap_len)),
@*/
}
/*@ fn connection_parser.rs::ParserData::callback_data
presig: -> & [ u8 ] =>> -> &'a [u8]
ret: r
spec:
    requires old(self).wf(),
    ensures
        final(self).data == old(self).data, final(self).gap_len == old(self).gap_len, final(self).position == old(self).position,
        // what was consumed since the last time, each byte once
        old(self).data is Some && old(self).callback_position <= old(self).position ==>
            r@ == old(self).data->0@.subrange(old(self).callback_position as int, old(self).position as int) && final(self).callback_position == old(self).position,
        old(self).data is None || old(self).callback_position > old(self).position ==> r@.len() == 0 && final(self).callback_position == old(self).callback_position,
@*/
/*@ fn connection_parser.rs::ParserData::reset_callback_start
spec:
    ensures *final(self) == (ParserData { callback_position: old(self).position, ..*old(self) }),
@*/
