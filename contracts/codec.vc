@units codec
@fn frame::Codec::new() nw
@fn frame::Codec#Encoder<Frame>::encode(self, item, dst) nw
  ensures
    enc(item).len() <= u32::MAX ==> r is Ok && final(dst)@ == old(dst)@ + whole(item),
    enc(item).len() > u32::MAX ==> r is Err && final(dst)@ == old(dst)@,
@fn frame::Codec#Decoder::decode(self, src) nw
  ensures
    match first(old(src)@) {
        Step::More => (r matches Ok(None)) && final(src)@ == old(src)@,
        Step::Frame(f, n) => (r matches Ok(Some(g)) && g == f) && final(src)@ == old(src)@.skip(n),
        Step::Bad => r is Err && final(src)@ == old(src)@,
    },
