//! The frame codec (C19): reached through the guarded hook module of the crate.
use crate::harness::*;
use crate::Case;
use bytes::{BufMut, BytesMut};
use hydra::hydra_verif as hv;
use hydra::hydra_verif::{Codec, Frame};
use hydra::ExitReason;
use std::net::SocketAddr;
use std::num::NonZeroU64;
use tokio_util::codec::{Decoder, Encoder};

const P: [&'static str; 1] = ["C19"];

pub fn text(g: &mut Rng) -> String {
    let n = [0, 1, 2, 5, 17, 300][g.below(6)];
    (0..n).map(|_| ['a', 'é', '\0', '漢', 'z', '"', '\n'][g.below(7)]).collect()
}
pub fn num(g: &mut Rng) -> u64 {
    match g.below(6) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u32::MAX as u64 + g.below(3) as u64,
        4 => g.below(300) as u64,
        _ => g.next(),
    }
}
fn nums(g: &mut Rng) -> Vec<u64> {
    let n = [0, 1, 2, 7, 40][g.below(5)];
    (0..n).map(|_| num(g)).collect()
}
fn nz(g: &mut Rng) -> NonZeroU64 {
    NonZeroU64::new(num(g).max(1)).unwrap()
}
fn bytes(g: &mut Rng) -> Vec<u8> {
    let n = [0, 1, 3, 32, 255, 256, 4000][g.below(7)];
    (0..n).map(|_| g.next() as u8).collect()
}
pub fn reason(g: &mut Rng) -> ExitReason {
    match g.below(5) {
        0 => ExitReason::Normal,
        1 => ExitReason::Kill,
        2 => ExitReason::Ignore,
        _ => ExitReason::Custom(text(g)),
    }
}
pub fn addr(g: &mut Rng) -> SocketAddr {
    let port = num(g) as u16;
    if g.chance(50) {
        SocketAddr::from(((g.next() as u32).to_be_bytes(), port))
    } else {
        let mut a = [0u16; 8];
        for x in a.iter_mut() {
            *x = g.next() as u16;
        }
        SocketAddr::from((a, port))
    }
}
pub fn frame(g: &mut Rng) -> Frame {
    match g.below(10) {
        0 => {
            let c = bytes(g);
            Frame::Hello(hv::Hello { name: text(g), broadcast_address: addr(g), challenge: c })
        }
        1 => hv::Ping.into(),
        2 => hv::Pong.into(),
        3 => {
            let mut s = hv::Send::with_message(bytes(g));
            for _ in 0..g.below(5) {
                let t = match g.below(3) {
                    0 => hv::SendTarget::Pid(nz(g)),
                    1 => hv::SendTarget::Named(text(g)),
                    _ => hv::SendTarget::Alias(nz(g)),
                };
                s.targets.push(t);
            }
            s.into()
        }
        4 => {
            let a = if g.chance(50) { Some(num(g)) } else { None };
            let b = if g.chance(50) { Some(text(g)) } else { None };
            let c = if g.chance(50) { Some(num(g)) } else { None };
            hv::Monitor::new(g.chance(50), a, b, c, num(g)).into()
        }
        5 => {
            let mut d = hv::MonitorDown::new(reason(g));
            d.monitors = nums(g);
            d.into()
        }
        6 => hv::MonitorUpdate::new(num(g), num(g), num(g)).into(),
        7 => hv::Link::new(g.chance(50), num(g), num(g)).into(),
        8 => {
            let mut d = hv::LinkDown::new(num(g), reason(g));
            d.links = nums(g);
            d.into()
        }
        _ => hv::Exit::new(num(g), num(g), reason(g)).into(),
    }
}
fn show(f: &Frame) -> String {
    let s = format!("{f:?}");
    if s.len() > 160 {
        format!("{}… ({} chars)", s.chars().take(150).collect::<String>(), s.len())
    } else {
        s
    }
}
fn encode(f: Frame) -> Result<BytesMut, String> {
    let mut b = BytesMut::new();
    Codec::new().encode(f, &mut b).map_err(|e| e.to_string())?;
    Ok(b)
}
/// what tokio_util's Framed does: append what was read, decode until nothing comes
fn feed(c: &mut Codec, buf: &mut BytesMut, part: &[u8], out: &mut Vec<Frame>) -> Result<(), String> {
    buf.extend_from_slice(part);
    loop {
        match c.decode(buf) {
            Ok(Some(f)) => out.push(f),
            Ok(None) => return Ok(()),
            Err(e) => return Err(e.to_string()),
        }
    }
}
fn cuts(g: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut at = 0;
    let style = g.below(4);
    while at < n {
        let k = match style {
            0 => 1,
            1 => 1 + g.below(6),
            2 => 1 + g.below(200),
            _ => n - at,
        };
        at = (at + k).min(n);
        v.push(at);
    }
    v
}
fn round_trip(seed: u64) -> R {
    let mut g = Rng::new(seed);
    let mut t = vec![];
    let n = g.below(7);
    let frames: Vec<Frame> = (0..n).map(|_| frame(&mut g)).collect();
    let want: Vec<String> = frames.iter().map(|f| format!("{f:?}")).collect();
    let mut c = Codec::new();
    let mut all = BytesMut::new();
    for f in frames {
        t.push(format!("encode {}", show(&f)));
        let before = all.clone();
        let e = c.encode(f, &mut all);
        ensure!(P, t, e.is_ok(), "encoding failed: {e:?}");
        ensure!(P, t, all.len() >= before.len() + 4 && all[..before.len()] == before[..], "encoding a frame changed what was encoded before it");
    }
    let mut buf = BytesMut::new();
    let mut out = vec![];
    let mut at = 0;
    for k in cuts(&mut g, all.len()) {
        let r = feed(&mut c, &mut buf, &all[at..k], &mut out);
        t.push(format!("read bytes {at}..{k} of {}", all.len()));
        ensure!(P, t, r.is_ok(), "decoding valid frames failed: {r:?}");
        at = k;
        for (i, f) in out.iter().enumerate() {
            ensure!(P, t, want.get(i) == Some(&format!("{f:?}")), "frame {i} decoded as {}, encoded {:?}", show(f), want.get(i));
        }
    }
    ensure!(P, t, out.len() == want.len(), "{} frames decoded, {} encoded", out.len(), want.len());
    ensure!(P, t, buf.is_empty(), "{} bytes left over", buf.len());
    Ok(())
}
/// a whole frame whose body is not a valid frame, then a valid one
fn bad_body(seed: u64) -> R {
    let mut g = Rng::new(seed);
    let f = frame(&mut g);
    let mut t = vec![format!("encode {}", show(&f))];
    let e = match encode(f) {
        Ok(e) => e,
        Err(e) => return fail(&P, format!("encoding failed: {e}"), &t),
    };
    let mut body: Vec<u8> = e[4..].to_vec();
    let valid_before = body.clone();
    let mut surely_bad = false;
    match g.below(5) {
        0 => {
            let k = 1 + g.below(9);
            for _ in 0..k {
                body.push(g.next() as u8);
            }
            t.push(format!("append {k} bytes to the body"));
            surely_bad = true;
        }
        1 => {
            let k = g.below(body.len());
            body.truncate(k);
            t.push(format!("cut the body to {k} bytes"));
            surely_bad = true;
        }
        2 => {
            let n = g.below(60);
            body = (0..n).map(|_| g.next() as u8).collect();
            t.push(format!("random body {body:?}"));
        }
        3 => {
            // a length inside the frame larger than any memory
            body = vec![0, 0, 0, 0];
            if g.chance(50) {
                body[0] = 3;
            }
            let n = [u64::MAX, 1 << 63, (1 << 63) + 5][g.below(3)];
            body.extend_from_slice(&n.to_le_bytes());
            for _ in 0..g.below(30) {
                body.push(g.next() as u8);
            }
            t.push(format!("body announcing {n} elements"));
            surely_bad = true;
        }
        _ => {
            if !body.is_empty() {
                for _ in 0..1 + g.below(3) {
                    let k = g.below(body.len());
                    // not the upper bytes of a length: a body may announce what memory allows
                    body[k] ^= 1 << g.below(8);
                }
            }
            t.push("flip bits of the body".into());
        }
    }
    surely_bad = surely_bad && body != valid_before;
    let mut s = BytesMut::new();
    s.put_u32_le(body.len() as u32);
    s.extend_from_slice(&body);
    let tail = encode(hv::Link::new(true, 77, 78).into()).unwrap();
    let whole = s.len();
    s.extend_from_slice(&tail);
    let mut c = Codec::new();
    // not there yet: nothing is consumed and nothing comes
    let k = g.below(whole);
    let mut part = BytesMut::from(&s[..k]);
    let r = c.decode(&mut part);
    ensure!(P, t, matches!(r, Ok(None)), "the first {k} of {whole} bytes decode as {r:?}");
    ensure!(P, t, part[..] == s[..k], "an incomplete frame was consumed");
    let before = s.clone();
    match c.decode(&mut s) {
        Ok(None) => return fail(&P, format!("a complete frame with body {body:?} stalls the stream"), &t),
        Ok(Some(f)) => {
            ensure!(P, t, !surely_bad, "a body that is not a frame decodes as {}", show(&f));
            let fs = show(&f);
            let again = encode(f).map_err(|e| Fail { props: P.to_vec(), what: format!("{fs} cannot be encoded: {e}"), trace: t.clone() })?;
            ensure!(P, t, again[..] == before[..whole], "body {body:?} decodes as {fs}, whose encoding is {:?}", &again[..]);
            ensure!(P, t, s[..] == tail[..], "decoding {fs} consumed {} bytes of {whole}", before.len() - s.len());
            let n = c.decode(&mut s);
            ensure!(P, t, matches!(n, Ok(Some(Frame::Link(ref l))) if l.install && l.process_id == 77 && l.from_id == 78), "the next frame decodes as {n:?}");
        }
        Err(_) => {
            ensure!(P, t, s[..] == before[..], "a refused frame took {} bytes of the stream", before.len() - s.len());
        }
    }
    Ok(())
}
pub fn cases(v: &mut Vec<Case>) {
    v.push(Case { name: "codec-round-trip", props: &P, random: true, limit: 0, f: round_trip });
    v.push(Case { name: "codec-bad-body", props: &P, random: true, limit: 0, f: bad_body });
}
