// The frame codec (C19). Buffers are sequences of bytes; what the bincode derive generates for the frame types is
// a pair of uninterpreted functions with the round trip law.
//@assume unit codec: bincode's derived Encode and Decode of the frame types are inverse to each other (decode_from_slice of an encoding gives the value back and consumes exactly its bytes; sampled by the replay of C19), a body whose inner lengths exceed the limit is refused, a body announcing at most 4 GiB can be allocated for; encoding into a growable buffer does not fail; in-memory lists of a frame stay below 4 GiB, and an address carries no IPv6 scope or flow label, which bincode drops; a usize has 64 bits
//@assume unit codec: tokio_util's Framed appends what it reads to the buffer and calls decode until it yields nothing, and ends the stream after an error
global size_of usize == 8;
/// a bincode configuration
#[derive(Clone, Copy)]
pub struct Cfg { pub fixed: bool, pub little: bool, pub limit: Option<usize> }
impl Cfg {
    pub fn with_fixed_int_encoding(self) -> (r: Cfg) ensures r == (Cfg { fixed: true, ..self }) { Cfg { fixed: true, ..self } }
    pub fn with_variable_int_encoding(self) -> (r: Cfg) ensures r == (Cfg { fixed: false, ..self }) { Cfg { fixed: false, ..self } }
    pub fn with_little_endian(self) -> (r: Cfg) ensures r == (Cfg { little: true, ..self }) { Cfg { little: true, ..self } }
    pub fn with_big_endian(self) -> (r: Cfg) ensures r == (Cfg { little: false, ..self }) { Cfg { little: false, ..self } }
    pub fn with_limit<const N: usize>(self) -> (r: Cfg) ensures r == (Cfg { limit: Some(N), ..self }) { Cfg { limit: Some(N), ..self } }
    pub fn with_no_limit(self) -> (r: Cfg) ensures r == (Cfg { limit: None, ..self }) { Cfg { limit: None, ..self } }
}
pub mod config {
    use super::*;
    pub fn standard() -> (r: Cfg) ensures r == (Cfg { fixed: false, little: true, limit: None }) { Cfg { fixed: false, little: true, limit: None } }
    pub fn legacy() -> (r: Cfg) ensures r == (Cfg { fixed: true, little: true, limit: None }) { Cfg { fixed: true, little: true, limit: None } }
}
/// the configuration of the protocol: no length inside a frame may ask for more memory than the longest frame has
pub open spec fn cfg() -> Cfg { Cfg { fixed: true, little: true, limit: Some(u32::MAX as usize) } }
pub enum ErrorKind { InvalidInput, InvalidData, Other, UnexpectedEof }
#[verifier::external_body]
pub struct Error { x: u8 }
impl Error { #[verifier::external_body] pub fn new<E>(k: ErrorKind, e: E) -> (r: Error) { unimplemented!() } }
#[verifier::external_body]
pub struct EncodeError { x: u8 }
#[verifier::external_body]
pub struct DecodeError { x: u8 }
/// the bytes of a frame
pub uninterp spec fn enc_c(fixed: bool, little: bool, f: Frame) -> Seq<u8>;
pub open spec fn enc(f: Frame) -> Seq<u8> { enc_c(true, true, f) }
/// what decoding the start of these bytes gives: the frame and the number of bytes it took
pub uninterp spec fn dec_c(c: Cfg, s: Seq<u8>) -> Option<(Frame, int)>;
pub open spec fn dec(s: Seq<u8>) -> Option<(Frame, int)> { dec_c(cfg(), s) }
pub broadcast axiom fn ax_dec(c: Cfg, f: Frame)
    ensures (c.limit matches Some(n) ==> enc_c(c.fixed, c.little, f).len() <= n) ==> #[trigger] dec_c(c, enc_c(c.fixed, c.little, f)) == Some((f, enc_c(c.fixed, c.little, f).len() as int));
pub open spec fn le32(n: nat) -> Seq<u8> { seq![(n % 256) as u8, (n / 256 % 256) as u8, (n / 65536 % 256) as u8, (n / 16777216 % 256) as u8] }
pub open spec fn of_le32(s: Seq<u8>) -> int { s[0] as int + 256 * s[1] + 65536 * s[2] + 16777216 * s[3] }
/// a frame as it is on the wire: its length in four bytes, then its bytes
pub open spec fn whole(f: Frame) -> Seq<u8> { le32(enc(f).len()) + enc(f) }
pub enum Step { More, Frame(Frame, int), Bad }
/// what the first bytes of the stream are (C19)
pub open spec fn first(s: Seq<u8>) -> Step {
    if s.len() < 4 { Step::More } else {
        let n = of_le32(s.take(4));
        if s.len() < 4 + n { Step::More } else {
            match dec(s.subrange(4, 4 + n)) { Some((f, k)) => if k == n { Step::Frame(f, 4 + n) } else { Step::Bad }, None => Step::Bad }
        }
    }
}
#[verifier::external_body]
pub struct BytesMut { x: u8 }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
pub struct Writer<'a> { pub b: &'a mut BytesMut }
impl BytesMut {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn put_u32_le(&mut self, n: u32) ensures final(self)@ == old(self)@ + le32(n as nat) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self, n: usize) requires n <= old(self)@.len() ensures final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn put_slice(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn extend_from_slice(&mut self, s: &[u8]) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn get_u32_le(&mut self) -> (r: u32) requires old(self)@.len() >= 4 ensures r == of_le32(old(self)@.take(4)), final(self)@ == old(self)@.skip(4) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn remaining(&self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn split_to(&mut self, n: usize) -> (r: BytesMut) requires n <= old(self)@.len() ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_sub<'a>(&'a self, a: usize, b: usize) -> (r: &'a [u8]) requires a <= b <= self@.len() ensures r@ == self@.subrange(a as int, b as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_copy_at(&mut self, a: usize, b: usize, s: &[u8]) requires a <= b <= old(self)@.len(), s@.len() == b - a
        ensures final(self)@ == old(self)@.take(a as int) + s@ + old(self)@.skip(b as int) { unimplemented!() }
    pub fn writer<'a>(&'a mut self) -> (r: Writer<'a>) ensures *r.b == *old(self), *final(self) == *final(r.b) { Writer { b: self } }
}
pub trait VxBytes { spec fn vb(&self) -> Seq<u8>; fn vx_copy_all(&mut self, s: &[u8]) requires old(self).vb().len() == s@.len() ensures final(self).vb() == s@; }
impl<const N: usize> VxBytes for [u8; N] { open spec fn vb(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vx_copy_all(&mut self, s: &[u8]) { unimplemented!() } }
pub trait VxLe { fn vx_to_le_bytes(&self) -> (r: [u8; 4]); fn vx_to_be_bytes(&self) -> (r: [u8; 4]); }
impl VxLe for u32 {
    #[verifier::external_body] fn vx_to_le_bytes(&self) -> (r: [u8; 4]) ensures r@ == le32(*self as nat) { unimplemented!() }
    #[verifier::external_body] fn vx_to_be_bytes(&self) -> (r: [u8; 4]) ensures r@ == le32(*self as nat).reverse() { unimplemented!() }
}
#[verifier::external_body] pub fn vx_u32_from_le_bytes(x: [u8; 4]) -> (r: u32) ensures r == of_le32(x@) { unimplemented!() }
#[verifier::external_body] pub fn vx_u32_from_be_bytes(x: [u8; 4]) -> (r: u32) ensures r == of_le32(x@.reverse()) { unimplemented!() }
pub mod bincode {
    use super::*;
    #[verifier::external_body]
    pub fn encode_into_std_write(f: Frame, o: &mut Writer<'_>, c: Cfg) -> (r: Result<usize, EncodeError>) ensures *final(final(o).b) == *final(old(o).b), final(o).b@ == old(o).b@ + enc_c(c.fixed, c.little, f), r matches Ok(n) && n == enc_c(c.fixed, c.little, f).len() { unimplemented!() }
    #[verifier::external_body]
    pub fn decode_from_slice(s: &[u8], c: Cfg) -> (r: Result<(Frame, usize), DecodeError>) requires c.limit matches Some(n) && n <= u32::MAX ensures match dec_c(c, s@) { Some((f, n)) => r matches Ok(p) && p.0 == f && p.1 == n, None => r is Err } { unimplemented!() }
}
pub broadcast proof fn lm_le32(n: nat) requires n <= u32::MAX ensures #[trigger] le32(n).len() == 4, of_le32(le32(n)) == n {
    assert(n == n % 256 + 256 * (n / 256 % 256) + 65536 * (n / 65536 % 256) + 16777216 * (n / 16777216 % 256)) by (nonlinear_arith) requires n <= u32::MAX;
}
// ---------- streams: whatever is cut where, the frames come out in order
/// the frames at the start of a stream, and what is left when no further whole frame is there
pub open spec fn drained(s: Seq<u8>) -> (Seq<Frame>, Seq<u8>, bool) decreases s.len() {
    match first(s) {
        Step::Frame(f, n) => if 4 <= n <= s.len() { let t = drained(s.skip(n)); (seq![f] + t.0, t.1, t.2) } else { (Seq::empty(), s, false) },
        Step::More => (Seq::empty(), s, false),
        Step::Bad => (Seq::empty(), s, true),
    }
}
pub open spec fn stream(fs: Seq<Frame>) -> Seq<u8> decreases fs.len() { if fs.len() == 0 { Seq::empty() } else { whole(fs[0]) + stream(fs.drop_first()) } }
pub open spec fn small(fs: Seq<Frame>) -> bool { forall|i: int| 0 <= i < fs.len() ==> enc(#[trigger] fs[i]).len() <= u32::MAX }
/// a whole frame at the start of a stream is recognised whatever follows it
pub proof fn lm_first_whole(f: Frame, t: Seq<u8>) requires enc(f).len() <= u32::MAX ensures first(whole(f) + t) == Step::Frame(f, whole(f).len() as int), (whole(f) + t).skip(whole(f).len() as int) == t
{
    let s = whole(f) + t; let n = enc(f).len() as int;
    lm_le32(enc(f).len());
    assert(s.take(4) =~= le32(enc(f).len()));
    assert(s.subrange(4, 4 + n) =~= enc(f));
    assert(s.skip(4 + n) =~= t);
    assert(of_le32(s.take(4)) == n);
    assert(whole(f).len() == 4 + n);
    ax_dec(cfg(), f);
}
/// more bytes do not change what the start of the stream was
pub proof fn lm_first_more(s: Seq<u8>, t: Seq<u8>) requires !(first(s) is More) ensures first(s + t) == first(s), first(s) matches Step::Frame(f, n) ==> 4 <= n <= s.len() && (s + t).skip(n) == s.skip(n) + t
{
    assert((s + t).take(4) =~= s.take(4));
    let n = of_le32(s.take(4));
    assert((s + t).subrange(4, 4 + n) =~= s.subrange(4, 4 + n));
    assert((s + t).skip(4 + n) =~= s.skip(4 + n) + t);
}
/// decoding what has arrived and then the rest gives the same as decoding it all at once
pub proof fn lm_cut(s: Seq<u8>, t: Seq<u8>) requires !drained(s).2
    ensures drained(s + t).0 == drained(s).0 + drained(drained(s).1 + t).0, drained(s + t).1 == drained(drained(s).1 + t).1, drained(s + t).2 == drained(drained(s).1 + t).2 decreases s.len()
{
    match first(s) {
        Step::Frame(f, n) => {
            lm_first_more(s, t);
            lm_cut(s.skip(n), t);
            assert(drained(s + t).0 =~= drained(s).0 + drained(drained(s).1 + t).0);
        },
        _ => { assert(drained(s).1 + t =~= s + t); assert(drained(s).0 =~= Seq::<Frame>::empty()); assert(drained(s + t).0 =~= drained(s).0 + drained(s + t).0); },
    }
}
/// the encodings of frames, one after another, decode to exactly these frames; the start of a further one stays in the buffer
pub proof fn lm_stream(fs: Seq<Frame>, t: Seq<u8>) requires small(fs), first(t) is More
    ensures drained(stream(fs) + t).0 == fs, drained(stream(fs) + t).1 == t, !drained(stream(fs) + t).2 decreases fs.len()
{
    if fs.len() == 0 { assert(stream(fs) + t =~= t); assert(fs =~= Seq::<Frame>::empty()); } else {
        let g = fs.drop_first();
        assert(small(g)) by { assert forall|i: int| 0 <= i < g.len() implies enc(#[trigger] g[i]).len() <= u32::MAX by { assert(g[i] == fs[i + 1]); } }
        lm_first_whole(fs[0], stream(g) + t);
        assert(stream(fs) + t =~= whole(fs[0]) + (stream(g) + t));
        lm_stream(g, t);
        assert(drained(stream(fs) + t).0 =~= fs);
    }
}
/// the start of the stream of one frame, cut before its end, yields nothing yet
pub proof fn lm_part(f: Frame, n: int) requires enc(f).len() <= u32::MAX, 0 <= n < whole(f).len() ensures first(whole(f).take(n)) is More
{
    lm_le32(enc(f).len());
    if n >= 4 { assert(whole(f).take(n).take(4) =~= le32(enc(f).len())); }
}
pub broadcast group vx_axioms { vx_base_axioms, ax_dec, lm_le32 }
