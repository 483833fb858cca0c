//! C13: tolerated irregularities. C14: validity verdicts.

use super::common::*;
use super::container::{first_difference, must};
use crate::audio::{self, Codes, Fate};
use crate::bits::BitW;
use crate::engine::*;
use crate::gen::{self, Layout, Profile, VStream};
use crate::model;
use crate::ogg::{self, EOS};
use crate::sut::{self, Cfg, Outcome};
use crate::vorbis::*;

/// Irregularities of a stream, each of which a strict reader could reject.
const KINDS: [&str; 17] = [
	"no EOS flag",
	"identification header framing",
	"identification header padding",
	"comment header framing",
	"comment header padding",
	"setup header framing",
	"setup header padding",
	"setup header padding bits",
	"codebook sync pattern",
	"time domain transform",
	"window type",
	"transform type",
	"mapping reserved field",
	"submap time configuration",
	"residue end before begin",
	"audio packet padding",
	"trailing garbage"
];

fn some_word(t: &mut Tape, max: u64) -> u64 {
	match t.weighted(&[2, 1, 2]) {
		0 => 1,
		1 => max,
		_ => t.range(1, max)
	}
}

fn padding(t: &mut Tape) -> Vec<u8> {
	let n = match t.weighted(&[4, 2, 1]) {
		0 => t.range(1, 8),
		1 => t.range(1, 700),
		_ => *t.pick(&[255u64, 65025, 70_000])
	} as usize;
	t.bytes(n)
}

/// Pages with the same number of packets each for a stream and its irregular variant.
fn lay_out(id: &[u8], comments: &[u8], setup: &[u8], audio: &[Vec<u8>], gps: &[i64], groups: &[usize], serial: u32) -> Vec<ogg::Page> {
	let mut g: Vec<Vec<(&[u8], i64)>> = vec![vec![(id, 0)], vec![(comments, 0), (setup, 0)]];
	let mut at = 0;
	for n in groups {
		g.push((at..at + n).map(|i| (&audio[i][..], gps[i])).collect());
		at += n;
	}
	let lay = Layout { targets: (255, 255), split: true, per_packet: false, nil_pages: false, headers_split: false };
	gen::paginate(&mut Tape::replay(vec![], 0), &g, &lay, serial)
}

/// Two byte strings that hold the same stream, the second irregularly, and what is irregular.
pub fn variants(t: &mut Tape, p: &Profile, serial: u32, last: bool) -> (Vec<ogg::Page>, Vec<ogg::Page>, Vec<&'static str>, VStream) {
	let real = t.chance(1, 6);
	let (id, comments, mut setup) = if real {
		let h = t.pick(real_headers());
		(h.id.clone(), h.comments.clone(), h.setup.clone())
	} else {
		let id = gen::gen_ident(t, p);
		let c = gen::gen_comments(t, p);
		let s = gen::gen_setup(t, &id, p);
		(id, c, s)
	};
	// What is irregular
	let mut kinds = vec![];
	let all = t.chance(1, 8);
	let one = t.below(KINDS.len() as u64) as usize;
	let more = t.chance(1, 2);
	for (i, k) in KINDS.iter().enumerate() {
		if all || i == one || (more && t.chance(1, 5)) {
			kinds.push(*k);
		}
	}
	if kinds.contains(&"residue end before begin") {
		for r in &mut setup.residues {
			if t.chance(2, 3) {
				if r.begin == 0 {
					r.begin = t.edge(1, (1 << 24) - 1) as u32;
				}
				r.end = r.begin;
			}
		}
	}
	let s = gen::gen_stream_from(t, p, serial, id, comments, setup);
	let mut done = vec![];
	let mut id2 = s.id.clone();
	let mut com2 = s.comments.clone();
	let mut set2 = s.setup.clone();
	let mut padding_bits = false;
	let mut audio2: Vec<Vec<u8>> = s.audio.iter().map(|a| a.bytes.clone()).collect();
	let mut no_eos = false;
	for k in &kinds {
		match *k {
			"no EOS flag" if last => no_eos = true,
			"identification header framing" => id2.framing = *t.pick(&[0, 2, 0x80, 0xfe, 0xff]),
			"identification header padding" => {
				id2.trailing = padding(t);
				// This header has a page of its own
				id2.trailing.truncate(64_990);
			}
			"comment header framing" => com2.framing = *t.pick(&[Some(0), None, Some(2), Some(0xfe)]),
			"comment header padding" => com2.trailing = padding(t),
			"setup header framing" => set2.framing = false,
			"setup header padding" => set2.trailing = padding(t),
			"setup header padding bits" => padding_bits = true,
			"codebook sync pattern" => {
				let every = t.chance(1, 3);
				let i = t.below(set2.books.len() as u64) as usize;
				for (j, b) in set2.books.iter_mut().enumerate() {
					if every || i == j {
						b.sync = *t.pick(&[0, 0x564343, 0x425643, 0xffffff, 0x564340]);
					}
				}
			}
			"time domain transform" => {
				let n = t.edge(1, 64) as usize;
				set2.times = (0..n).map(|_| if t.chance(1, 2) { some_word(t, 0xffff) as u16 } else { 0 }).collect();
				if n == 1 {
					set2.times[0] = some_word(t, 0xffff) as u16;
				}
			}
			"window type" => {
				let i = t.below(set2.modes.len() as u64) as usize;
				set2.modes[i].window = some_word(t, 0xffff) as u16;
			}
			"transform type" => {
				let i = t.below(set2.modes.len() as u64) as usize;
				set2.modes[i].transform = some_word(t, 0xffff) as u16;
			}
			"mapping reserved field" => {
				let i = t.below(set2.mappings.len() as u64) as usize;
				set2.mappings[i].reserved = some_word(t, 3) as u8;
			}
			"submap time configuration" => {
				let i = t.below(set2.mappings.len() as u64) as usize;
				let subs = &mut set2.mappings[i].subs;
				let j = t.below(subs.len() as u64) as usize;
				subs[j].0 = some_word(t, 255) as u8;
			}
			"residue end before begin" => {
				for r in &mut set2.residues {
					if r.end == r.begin && r.begin > 0 {
						r.end = r.begin - some_word(t, r.begin as u64) as u32;
					}
				}
				if set2.residues == s.setup.residues {
					continue;
				}
			}
			"audio packet padding" => {
				let every = t.chance(1, 3);
				let mut any = false;
				for (i, a) in s.audio.iter().enumerate() {
					if a.dec.fate == Fate::Full && (every || t.chance(1, 3)) {
						let b = &mut audio2[i];
						let used = a.dec.bits;
						if used % 8 != 0 && t.chance(1, 2) {
							b[used / 8] |= (t.below(256) as u8) << (used % 8);
						}
						if t.chance(2, 3) {
							b.extend(padding(t));
						}
						any |= *b != a.bytes;
					}
				}
				if !any {
					continue;
				}
			}
			"trailing garbage" if last => (),
			_ => continue
		}
		done.push(*k);
	}
	let mut setup_bits = set2.encode_bits(s.id.channels);
	if padding_bits {
		if setup_bits.nbits % 8 == 0 {
			done.retain(|k| *k != "setup header padding bits");
		} else {
			let v = some_word(t, 255) as u8;
			*setup_bits.buf.last_mut().unwrap() |= v << (setup_bits.nbits % 8);
		}
	}
	let mut setup2 = setup_bits.buf;
	setup2.extend(&set2.trailing);
	if com2.framing.is_none() && !com2.trailing.is_empty() {
		com2.framing = Some(0);
	}
	// The same packets on every page
	let (offset, trim) = gen::gen_offsets(t, p, &s.audio);
	let gps = gen::nominal_gps(&s.audio, offset, trim);
	let audio1: Vec<Vec<u8>> = s.audio.iter().map(|a| a.bytes.clone()).collect();
	let target = t.range(1, 255) as usize;
	let mut groups: Vec<usize> = vec![];
	let mut size = usize::MAX;
	for (a, b) in audio1.iter().zip(&audio2) {
		let n = a.len().max(b.len()) / 255 + 1;
		if size.saturating_add(n) <= target {
			*groups.last_mut().unwrap() += 1;
			size += n;
		} else {
			groups.push(1);
			size = n;
		}
	}
	let a = lay_out(&s.id_bytes, &s.comment_bytes, &s.setup_bytes, &audio1, &gps, &groups, serial);
	let mut b = lay_out(&id2.encode(), &com2.encode(), &setup2, &audio2, &gps, &groups, serial);
	if no_eos {
		b.last_mut().unwrap().flags &= !EOS;
	}
	(a, b, done, s)
}

fn c13_case(t: &mut Tape, cx: &mut Cx, p: &Profile) -> CaseResult {
	let cfg = Cfg::draw_any(t);
	let streams = if t.chance(1, 6) { 2 } else { 1 };
	let (mut a, mut b) = (vec![], vec![]);
	let mut kinds: Vec<&str> = vec![];
	let mut what = vec![];
	for i in 0..streams {
		let (x, y, k, s) = variants(t, p, 5 + i, i + 1 == streams);
		a.extend(x);
		b.extend(y);
		kinds.extend(k);
		what.push(s.describe());
	}
	let a = ogg::encode_pages(&a);
	let mut b = ogg::encode_pages(&b);
	if kinds.contains(&"trailing garbage") {
		let n = match t.weighted(&[3, 2, 2, 1]) {
			0 => t.range(1, 4),
			1 => t.range(1, 30),
			2 => t.range(1, 5000),
			_ => t.range(5000, 100_000)
		} as usize;
		let mut g = t.bytes(n);
		match t.below(4) {
			0 => g = b"OggX".iter().chain(&g).copied().collect(),
			1 => g.extend(b"Ogg"),
			2 => g.extend(b"O"),
			_ => ()
		}
		while let Some(i) = g.windows(4).position(|w| w == b"OggS") {
			g[i] = 0;
		}
		b.extend(g);
	}
	if a == b {
		cx.label("nothing irregular");
		return Ok(());
	}
	kinds.sort();
	kinds.dedup();
	for k in &kinds {
		cx.label(k);
	}
	cx.hash = hash_bytes(&b);
	cx.sample = Some(format!("{}; {}; settings {cfg:?}", kinds.join(", "), what.join(" + ")));
	let o = match sut::remux(&cfg, &a) {
		Outcome::Ok(o) => o,
		_ => {
			cx.label("regular equivalent not processed");
			return Ok(());
		}
	};
	cx.nontrivial = true;
	let o2 = must(&b, &cfg, &format!("an irregular stream ({})", kinds.join(", "))).map_err(|f| f.with("regular.ogg", &a))?;
	let (o, o2) = (cfg.neutral(o), cfg.neutral(o2));
	if o != o2 {
		return Err(Failure::new("output-differs", format!("the output of an irregular stream ({}) differs from that of its regular equivalent: {}", kinds.join(", "), first_difference(&o, &o2)))
			.with("regular.ogg", &a)
			.with("irregular.ogg", &b)
			.with("regular-output.ogg", &o)
			.with("irregular-output.ogg", &o2));
	}
	Ok(())
}

fn c13_streams(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	c13_case(t, cx, &Profile { extreme: 20, ..Profile::default() })
}

/// Setups that specify codebooks incompletely are decodable as long as packets use no unassigned
/// codewords.
fn c14_underspecified(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let p = Profile { underspecified: true, early: false, ..Profile::small() };
	let cfg = Cfg::draw_any(t);
	let s = gen::gen_stream(t, &p, 7);
	let under = s.setup.books.iter().any(|b| {
		let k = crate::huff::kraft(&b.lens);
		k != 0 && k != 1 << 32 && b.lens != [1]
	});
	let Some(c) = accepted(cx, s.encode(), cfg, true)? else { return Ok(()) };
	cx.nontrivial = under;
	cx.label_if(under, "underspecified codebook");
	for (i, o) in c.ins.iter().zip(&c.outs) {
		crate::checks::lossless(i, o).map_err(|f| c.explain(f))?;
		crate::checks::headers_preserved(i, o).map_err(|f| c.explain(f))?;
	}
	Ok(())
}

// ---- C14

#[derive(Debug, PartialEq)]
pub enum Verdict {
	Valid,
	/// The violated rule
	Invalid(String),
	/// Neither acceptance nor rejection is demanded
	Open(&'static str)
}

/// The verdict of the reference on the packets of a stream whose first packet announces Vorbis.
pub fn verdict(packets: &[Vec<u8>]) -> Verdict {
	let packets = packets.iter().map(|d| ogg::Pkt { data: d.clone(), page: 0, last_on_page: false }).collect();
	let s = match model::understand(ogg::Stream { serial: 0, pages: vec![], packets }) {
		Err(r) if r == "stream-incomplete-headers" => return Verdict::Open("incomplete headers"),
		Err(r) => return Verdict::Invalid(r),
		Ok(s) => s
	};
	let mut open = None;
	for a in &s.audio {
		match &a.fate {
			Fate::Invalid(r) if r == "audio-unassigned-codeword of a single-entry codebook" => open = Some("the other bit of a single-entry codebook"),
			Fate::Invalid(r) if r == "audio-classbook-no-dimensions" => open = Some("classbook of no dimensions"),
			Fate::Invalid(r) => return Verdict::Invalid(r.clone()),
			_ => ()
		}
	}
	for l in &s.parsed.lenient {
		match &l[..] {
			"floor-64-65-points" => open = Some("64 or 65 explicit floor points"),
			"floor-point-zero" => open = Some("explicit floor point at zero"),
			"setup-framing" if s.parsed.bits == s.parsed.len * 8 => open = Some("no framing bit"),
			_ => ()
		}
	}
	if s.packets[1].data.len() < 7 {
		open = Some("tiny comment header");
	}
	open.map_or(Verdict::Valid, Verdict::Open)
}

/// Number of used entries of the biggest codebook the code under test would build a tree for. Its
/// effort is quadratic in that.
pub fn biggest_tree(setup: &[u8]) -> usize {
	let mut r = crate::bits::BitR::new(setup);
	r.pos = 56;
	let mut most = 0;
	let mut run = || -> Option<()> {
		for _ in 0..r.get(8)? + 1 {
			r.get(24)?;
			let dims = r.get(16)? as u16;
			let n = r.get(24)?;
			let mut used = 0;
			if r.bit()? {
				let mut cur = r.get(5)? + 1;
				let mut at = 0;
				while at < n && cur <= 32 {
					let run = r.get(crate::bits::ilog(n - at))?;
					if at + run > n {
						return None;
					}
					at += run;
					cur += 1;
				}
				used = n as usize;
			} else {
				let sparse = r.bit()?;
				for _ in 0..n {
					if !sparse || r.bit()? {
						r.get(5)?;
						used += 1;
					}
				}
			}
			let lookup = r.get(4)?;
			if lookup > 0 {
				r.get(32)?;
				r.get(32)?;
				let bits = r.get(4)? as u64 + 1;
				r.bit()?;
				let count = match lookup {
					1 if dims == 0 => return None,
					1 => crate::bits::lookup1_values(n, dims) as u64,
					_ => n as u64 * dims as u64
				};
				if count * bits > r.left() as u64 {
					return None;
				}
				r.pos += (count * bits) as usize;
			}
			most = most.max(used);
		}
		None
	};
	run();
	most
}

/// Book number that does not exist, if there is one.
fn missing(t: &mut Tape, count: usize, max: u64) -> Option<u8> {
	if count as u64 > max {
		None
	} else {
		Some(t.edge(count as u64, max) as u8)
	}
}

/// Breaks (or perhaps only bends) one rule of the setup header; `None` if this one has nothing to
/// break.
pub fn break_setup(t: &mut Tape, s: &mut Setup, channels: u8, kind: usize) -> Option<&'static str> {
	let nb = s.books.len();
	let b = t.below(nb as u64) as usize;
	let f = t.below(s.floors.len() as u64) as usize;
	let r = t.below(s.residues.len() as u64) as usize;
	let m = t.below(s.mappings.len() as u64) as usize;
	let o = t.below(s.modes.len() as u64) as usize;
	Some(match kind {
		0 => {
			// One leaf too many
			let book = &mut s.books[b];
			if book.used() == 0 {
				return None;
			}
			match t.below(3) {
				0 => {
					let at = t.below(book.lens.len() as u64 + 1) as usize;
					book.lens.insert(at, t.range(1, 32) as u8);
				}
				1 => {
					let at = book.lens.iter().position(|l| *l > 1)?;
					book.lens[at] -= t.range(1, book.lens[at] as u64 - 1) as u8;
				}
				_ => {
					let at = t.below(book.lens.len() as u64) as usize;
					book.lens[at] = t.range(1, 32) as u8;
				}
			}
			book.enc = LenEnc::Sparse;
			book.mults.resize(book.mult_count() as usize, 1);
			"codeword lengths"
		}
		1 => {
			let book = &mut s.books[b];
			if book.lookup == 0 {
				book.value_bits = 1;
			}
			book.lookup = t.range(3, 15) as u8;
			"reserved lookup type"
		}
		2 => {
			s.floors[f].typ = *t.pick(&[0, 2, 3, 255, 256, 257, 65535]);
			"floor type"
		}
		3 => {
			let c = s.floors[f].classes.iter_mut().find(|c| c.sub > 0)?;
			c.master = Some(missing(t, nb, 255)?);
			"floor masterbook"
		}
		4 => {
			let n = s.floors[f].classes.len();
			if n == 0 {
				return None;
			}
			let c = t.below(n as u64) as usize;
			let c = &mut s.floors[f].classes[c];
			let i = t.below(c.books.len() as u64) as usize;
			c.books[i] = Some(missing(t, nb, 254)?);
			"floor subclass book"
		}
		5 => {
			let x = &mut s.floors[f].xs;
			if x.len() < 2 {
				return None;
			}
			let i = t.below(x.len() as u64) as usize;
			let j = (i + 1 + t.below(x.len() as u64 - 1) as usize) % x.len();
			x[i] = x[j];
			"repeated floor point"
		}
		6 => {
			// 62 to 70 points
			let fl = &mut s.floors[f];
			let n = t.range(8, 9);
			fl.parts = vec![0; n as usize];
			let last = t.range(1, 8) as u8;
			fl.parts[n as usize - 1] = 1;
			fl.classes = vec![FClass { dim: 8, sub: 0, master: None, books: vec![None] }, FClass { dim: last, sub: 0, master: None, books: vec![None] }];
			fl.range = t.range(7, 15) as u8;
			let count = (n - 1) * 8 + last as u64;
			fl.xs = (1..=count as u32).collect();
			"number of floor points"
		}
		7 => {
			s.residues[r].typ = *t.pick(&[3, 4, 255, 256, 257, 258, 65535]);
			"residue type"
		}
		8 => {
			s.residues[r].classbook = missing(t, nb, 255)?;
			"residue classbook"
		}
		9 => {
			let res = &mut s.residues[r];
			let n = t.edge(1, 64) as u8;
			res.books.resize(n as usize, [None; 8]);
			res.classifications = n;
			"number of classifications"
		}
		10 => {
			let new = missing(t, nb, 255)?;
			let res = &mut s.residues[r];
			let c = t.below(res.books.len() as u64) as usize;
			res.books[c][t.below(8) as usize] = Some(new);
			"residue book"
		}
		11 => {
			s.mappings[m].typ = *t.pick(&[1, 2, 255, 256, 65535]);
			"mapping type"
		}
		12 => {
			// Channel pairs
			let width = 1u64 << crate::bits::ilog(channels as u32 - 1);
			let pair = (t.below(width) as u8, t.below(width) as u8);
			let c = &mut s.mappings[m].coupling;
			if c.is_empty() || t.chance(1, 2) {
				let at = t.below(c.len() as u64 + 1) as usize;
				c.insert(at, pair);
			} else {
				let at = t.below(c.len() as u64) as usize;
				match t.below(3) {
					0 => c[at] = pair,
					1 => c[at].0 = c[at].1,
					_ => c[at].1 = width as u8 - 1
				}
			}
			c.truncate(256);
			"coupling"
		}
		13 => {
			let map = &mut s.mappings[m];
			if map.subs.len() == 1 {
				let sub = map.subs[0];
				map.subs.push(sub);
			}
			let ch = t.below(channels as u64) as usize;
			map.mux[ch] = t.range(0, 15) as u8;
			"channel multiplexing"
		}
		14 => {
			let n = s.floors.len();
			let map = &mut s.mappings[m];
			let i = t.below(map.subs.len() as u64) as usize;
			map.subs[i].1 = missing(t, n, 255)?;
			"submap floor"
		}
		15 => {
			let n = s.residues.len();
			let map = &mut s.mappings[m];
			let i = t.below(map.subs.len() as u64) as usize;
			map.subs[i].2 = missing(t, n, 255)?;
			"submap residue"
		}
		16 => {
			s.modes[o].mapping = missing(t, s.mappings.len(), 255)?;
			"mode mapping"
		}
		17 => {
			// A scalar codebook where vectors are decoded
			let v: Vec<usize> = (0..nb).filter(|b| s.books[*b].lookup > 0).collect();
			if v.is_empty() {
				return None;
			}
			let book = &mut s.books[*t.pick(&v)];
			book.lookup = 0;
			book.mults.clear();
			"scalar codebook"
		}
		18 => {
			let v: Vec<usize> = (0..nb).filter(|b| s.books[*b].lookup > 0).collect();
			if v.is_empty() {
				return None;
			}
			let book = &mut s.books[*t.pick(&v)];
			book.dims = match t.below(3) {
				0 => book.dims.wrapping_add(1),
				1 => t.range(0, 9) as u16,
				_ => t.edge(0, 65535) as u16
			};
			if book.dims == 0 && book.lookup == 1 {
				book.mults = vec![1; 40];
			} else if book.mult_count() > 100_000 {
				return None;
			} else {
				book.mults.resize(book.mult_count() as usize, 1);
			}
			"codebook dimensions"
		}
		19 => {
			let res = &mut s.residues[r];
			res.psize = match t.below(3) {
				0 => res.psize.wrapping_add(1),
				1 => t.range(1, 20) as u32,
				_ => t.edge(1, 1 << 24) as u32
			}
			.clamp(1, 1 << 24);
			"partition size"
		}
		20 => {
			// A codeword less
			let book = &mut s.books[b];
			let used: Vec<usize> = (0..book.lens.len()).filter(|i| book.lens[*i] > 0).collect();
			if used.is_empty() {
				return None;
			}
			let i = *t.pick(&used);
			if t.chance(1, 2) {
				book.lens[i] = 0;
			} else {
				book.lens[i] = (book.lens[i] + t.range(1, 3) as u8).min(32);
			}
			book.enc = LenEnc::Sparse;
			"codeword missing"
		}
		21 => {
			// Fewer books than are referenced
			let n = t.range(1, nb as u64) as usize;
			s.books.truncate(n);
			"codebooks removed"
		}
		22 => {
			let n = t.range(1, s.floors.len() as u64) as usize;
			s.floors.truncate(n);
			"floors removed"
		}
		23 => {
			let n = t.range(1, s.residues.len() as u64) as usize;
			s.residues.truncate(n);
			"residues removed"
		}
		24 => {
			let n = t.range(1, s.mappings.len() as u64) as usize;
			s.mappings.truncate(n);
			"mappings removed"
		}
		25 => {
			let n = t.range(1, s.modes.len() as u64) as usize;
			s.modes.truncate(n);
			"modes removed"
		}
		_ => {
			// One mode more, which needs one more bit in every packet or is never used
			let mode = s.modes[o].clone();
			s.modes.push(mode);
			if s.modes.len() > 64 {
				return None;
			}
			"mode added"
		}
	})
}
pub const SETUP_KINDS: usize = 27;

/// An ordered codebook with run lengths that may exceed the number of entries or the length limit.
fn ordered_runs(t: &mut Tape, s: &Setup, channels: u8) -> Vec<u8> {
	let mut w = BitW::default();
	for b in b"\x05vorbis" {
		w.put(*b as u64, 8);
	}
	let at = t.below(s.books.len() as u64) as usize;
	w.put(s.books.len() as u64 - 1, 8);
	for (i, b) in s.books.iter().enumerate() {
		if i != at {
			b.encode(&mut w);
			continue;
		}
		w.put(0x564342, 24);
		w.put(1, 16);
		let n = t.range(0, 40);
		w.put(n, 24);
		w.flag(true);
		let mut cur = t.range(1, 32);
		w.put(cur - 1, 5);
		let mut left = n;
		let zeros = t.chance(1, 2);
		while left > 0 && cur <= 32 {
			let width = crate::bits::ilog(left as u32);
			let run = match t.weighted(&[3, 2, 1]) {
				0 => t.range(0, left),
				1 if zeros => 0,
				_ => t.below(1 << width)
			};
			w.put(run, width);
			if run > left {
				break;
			}
			left -= run;
			cur += 1;
		}
		w.put(0, 4);
	}
	s.encode_after_books(channels, &mut w);
	w.buf
}

pub fn flip_bits(t: &mut Tape, d: &mut [u8], from: usize) {
	if d.len() <= from {
		return;
	}
	let n = match t.weighted(&[4, 2, 1]) {
		0 => 1,
		1 => t.range(1, 4),
		_ => t.range(1, 40)
	};
	// Towards the end as well as towards the start, since books take most of the space
	let late = t.chance(1, 2);
	for _ in 0..n {
		let span = (d.len() - from) as u64;
		let i = if late { d.len() - 1 - t.edge(0, span - 1) as usize } else { from + t.below(span) as usize };
		d[i] ^= 1 << t.below(8);
	}
}

/// Judges the remuxer's verdict on a stream of these packets.
fn c14_judge(cx: &mut Cx, packets: &[Vec<u8>], what: &str, cfg: Cfg, group: usize) -> CaseResult {
	if packets.get(2).is_some_and(|s| biggest_tree(s) > 5000) {
		cx.label("skipped: big codebook");
		return Ok(());
	}
	let v = verdict(packets);
	let audio: Vec<(&[u8], i64)> = packets.iter().skip(3).map(|p| (&p[..], 0)).collect();
	let mut groups = vec![vec![(&packets[0][..], 0)], packets[1..packets.len().min(3)].iter().map(|p| (&p[..], 0)).collect()];
	groups.extend(audio.chunks(group.max(1)).map(|c| c.to_vec()));
	let lay = Layout { targets: (255, 255), split: true, per_packet: false, nil_pages: false, headers_split: false };
	let pages = gen::paginate(&mut Tape::replay(vec![], 0), &groups, &lay, 3);
	let input = ogg::encode_pages(&pages);
	cx.hash = hash_bytes(&input);
	let out = sut::remux(&cfg, &input);
	cx.label(&match &v {
		Verdict::Valid => "valid".to_string(),
		Verdict::Invalid(r) => format!("invalid: {r}"),
		Verdict::Open(w) => format!("open: {w}")
	});
	cx.nontrivial = !matches!(v, Verdict::Open(_));
	cx.sample = Some(format!("{what}; {} packets, {} bytes; verdict {v:?}", packets.len(), input.len()));
	let f = |kind: &str, msg: String| Err(Failure::new(kind, format!("{msg} [{what}; settings {cfg:?}]")).with("input.ogg", &input));
	match (&v, &out) {
		(_, Outcome::Panic(e)) => f("panic", format!("panic instead of a verdict ({v:?}): {e}")),
		(Verdict::Valid, Outcome::Err(e)) => f("valid-rejected", format!("a stream that violates no rule is rejected: {e}")),
		(Verdict::Invalid(r), Outcome::Ok(_)) => f("invalid-accepted", format!("a stream that violates the rule {r} is accepted")),
		_ => Ok(())
	}
}

pub fn packets_of(s: &VStream) -> Vec<Vec<u8>> {
	let mut p = vec![s.id_bytes.clone(), s.comment_bytes.clone(), s.setup_bytes.clone()];
	p.extend(s.audio.iter().map(|a| a.bytes.clone()));
	p
}

fn c14_base(t: &mut Tape) -> VStream {
	let p = Profile { underspecified: t.chance(1, 4), padded: false, ..Profile::small() };
	if t.chance(1, 10) {
		gen_real(t, &p, 3)
	} else {
		gen::gen_stream(t, &p, 3)
	}
}

fn c14_setup(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { err_none: true, ..Cfg::draw_any(t) };
	let kind = t.below(SETUP_KINDS as u64 + 1) as usize;
	let base = c14_base(t);
	let mut packets = packets_of(&base);
	let what;
	if kind == SETUP_KINDS {
		packets[2] = ordered_runs(t, &base.setup, base.id.channels);
		what = "ordered codebook";
	} else {
		let mut s = base.setup.clone();
		let Some(w) = break_setup(t, &mut s, base.id.channels, kind) else {
			cx.label("nothing to break");
			return Ok(());
		};
		what = w;
		packets[2] = s.encode(base.id.channels);
		if t.chance(1, 2) {
			// Audio packets encoded for the changed setup, if it is usable
			if let (Ok(_), Some(codes)) = (parse_setup(&packets[2], base.id.channels), Codes::new(&s)) {
				let style = t.range(1, 5) as u8;
				for p in packets.iter_mut().skip(3) {
					let style = audio::Style { kind: style, seed: t.seed(), energy: 7, mode: t.below(s.modes.len() as u64) as u32, max_bits: 800 };
					*p = audio::encode(&base.id, &s, &codes, style);
				}
			}
		}
	}
	c14_judge(cx, &packets, what, cfg, t.range(1, 6) as usize)
}

fn c14_headers(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { err_none: true, ..Cfg::draw_any(t) };
	let base = c14_base(t);
	let mut packets = packets_of(&base);
	let mut id = base.id.clone();
	let what;
	match t.below(14) {
		0 => {
			id.version = some_word(t, u32::MAX as u64) as u32;
			packets[0] = id.encode();
			what = "version";
		}
		1 => {
			id.channels = t.edge(0, 255) as u8;
			packets[0] = id.encode();
			what = "channels";
		}
		2 => {
			id.rate = *t.pick(&[0, 0, 0, 1 << 31, 256]);
			packets[0] = id.encode();
			what = "rate";
		}
		3 | 4 => {
			id.bs0 = t.range(0, 15) as u8;
			id.bs1 = t.range(0, 15) as u8;
			packets[0] = id.encode();
			what = "blocksizes";
		}
		5 => {
			let n = t.range(7, 29) as usize;
			packets[0].truncate(n);
			what = "identification header cut";
		}
		6 => {
			let i = t.range(0, 6) as usize;
			if t.chance(1, 2) {
				packets[1][i] ^= 1 << t.below(8);
			} else {
				packets[1][i] = *t.pick(&[0, 1, 3, 5, b'V', 0xff]);
			}
			what = "comment header signature";
		}
		7 => {
			let i = t.range(0, 6) as usize;
			if t.chance(1, 2) {
				packets[2][i] ^= 1 << t.below(8);
			} else {
				packets[2][i] = *t.pick(&[0, 1, 3, 5, b'V', 0xff]);
			}
			what = "setup header signature";
		}
		8 => {
			let n = t.range(0, packets[2].len() as u64 - 1) as usize;
			packets[2].truncate(n);
			what = "setup header cut";
		}
		9 => {
			let n = packets[2].len() - 1 - t.edge(0, packets[2].len() as u64 - 1) as usize;
			packets[2].truncate(n);
			what = "setup header cut near its end";
		}
		10 => {
			packets.swap(1, 2);
			what = "headers swapped";
		}
		11 => {
			let i = t.range(0, 2) as usize;
			packets.remove(i.max(1));
			what = "header missing";
		}
		12 => {
			let i = t.range(0, 2) as usize;
			let at = t.range(1, packets.len() as u64) as usize;
			let p = packets[i].clone();
			packets.insert(at, p);
			what = "header repeated";
		}
		_ => {
			let at = t.range(1, 3) as usize;
			let p = t.pick(&[b"".to_vec(), vec![0], vec![2], b"\x00vorbis".to_vec(), b"\x02vorbis".to_vec(), b"\x09vorbis".to_vec()]).clone();
			packets.insert(at, p);
			what = "packet inserted between headers";
		}
	}
	c14_judge(cx, &packets, what, cfg, t.range(1, 6) as usize)
}

fn c14_flips(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { err_none: true, ..Cfg::draw_any(t) };
	let base = c14_base(t);
	let mut packets = packets_of(&base);
	let what = match t.weighted(&[1, 5, 4]) {
		0 => {
			flip_bits(t, &mut packets[0], 7);
			"bits of the identification header flipped"
		}
		1 => {
			flip_bits(t, &mut packets[2], 7);
			"bits of the setup header flipped"
		}
		_ => {
			for p in packets.iter_mut().skip(3) {
				if t.chance(1, 2) {
					flip_bits(t, p, 0);
				}
				if let (Some(b), true) = (p.first_mut(), t.chance(9, 10)) {
					*b &= !1;
				}
			}
			"bits of audio packets flipped"
		}
	};
	c14_judge(cx, &packets, what, cfg, t.range(1, 6) as usize)
}

fn c14_fields(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { err_none: true, ..Cfg::draw_any(t) };
	let base = c14_base(t);
	let (packets, what) = super::wild::change_fields(t, &base);
	c14_judge(cx, &packets, &what, cfg, t.range(1, 6) as usize)
}

fn c14_audio(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { err_none: true, ..Cfg::draw_any(t) };
	let base = c14_base(t);
	let mut packets = packets_of(&base);
	let at = t.range(3, packets.len() as u64) as usize;
	let what;
	let p = match t.below(6) {
		0 => {
			what = "audio packet with the type bit of headers";
			let mut p = packets.get(at).cloned().unwrap_or_default();
			match p.first_mut() {
				Some(b) => *b |= 1,
				None => p.push(1)
			}
			p
		}
		1 => {
			what = "audio packet with a random mode";
			let width = crate::bits::ilog(base.setup.modes.len() as u32 - 1);
			let mut w = BitW::default();
			w.flag(false);
			w.put(t.below(1 << width), width);
			w.put(t.seed(), 32);
			w.buf
		}
		2 => {
			what = "empty audio packet";
			vec![]
		}
		3 | 4 => {
			what = "random audio packet";
			let n = t.size(0, 60);
			let mut p = t.bytes(n);
			if let Some(b) = p.first_mut() {
				*b &= !1;
			}
			p
		}
		_ => {
			what = "audio packet of the same byte";
			let n = t.size(0, 200);
			vec![*t.pick(&[0u8, 0xff, 0x55, 0xaa, 0x80]); n]
		}
	};
	packets.insert(at, p);
	c14_judge(cx, &packets, what, cfg, t.range(1, 6) as usize)
}

/// Sparse codebooks with millions of entries, whose number of lookup values is only right when
/// roots are computed exactly.
pub fn big_book_stream(t: &mut Tape) -> VStream {
	let dims = *t.pick(&[2u16, 3, 2, 4, 5, 6, 7, 8, 1]);
	let top = (((1u64 << 24) - 2) as f64).powf(1.0 / dims as f64) as u64;
	let root = match t.weighted(&[3, 1]) {
		0 => top - t.range(0, (top / 3).min(top - 1)),
		_ => t.range(1, top)
	};
	let mut root = root.max(1);
	while root.pow(dims as u32) >= 1 << 24 {
		root -= 1;
	}
	let entries = (root.pow(dims as u32) as i64 + *t.pick(&[-1i64, 0, 1])).clamp(1, (1 << 24) - 1) as u32;
	let mut book = Book {
		sync: 0x564342,
		dims,
		lens: vec![0; entries as usize],
		enc: LenEnc::Sparse,
		lookup: 1,
		min: 0,
		delta: 0x60000001,
		value_bits: t.range(1, 4) as u8,
		seq: false,
		mults: vec![]
	};
	for i in 0..(entries as usize).min(2) {
		book.lens[i * (entries as usize - 1)] = 1;
	}
	let mut r = Rng::new(t.seed());
	book.mults = (0..crate::bits::lookup1_values(entries, dims)).map(|_| r.below(1 << book.value_bits) as u32).collect();
	let p = Profile { max_packets: 4, early: false, dropped: false, ..Profile::small() };
	let id = gen::gen_ident(t, &p);
	let mut s = gen::gen_setup(t, &id, &p);
	let at = t.below(s.books.len() as u64) as usize;
	s.books[at] = book;
	// The classbooks have to stay big enough, and partitions divisible
	for res in &mut s.residues {
		res.classbook = (0..s.books.len()).find(|b| s.books[*b].lens.len() as u64 >= res.classifications as u64 && s.books[*b].dims == 1).unwrap_or(at) as u8;
		if s.books[res.classbook as usize].dims != 1 {
			res.classifications = 1;
			res.books.truncate(1);
		}
		for b in res.books.iter_mut().flatten() {
			if b.is_some_and(|b| b as usize == at) {
				*b = None;
			}
		}
	}
	gen::gen_stream_from(t, &p, 3, id, Comments { framing: Some(1), ..Default::default() }, s)
}

fn c14_big(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let s = big_book_stream(t);
	c14_judge(cx, &packets_of(&s), "codebook of millions of entries", Cfg::default(), 3)
}

pub fn props() -> Vec<Prop> {
	vec![
		Prop {
			id: "C13",
			level: "exploration",
			rule: "a generated stream (or generated packets for headers of a real file) and a variant with any subset of 17 kinds of irregularities must give the same output; non-trivial: the regular equivalent is accepted and the variant differs from it",
			assumptions: &["the regular equivalent of a stream has the same packets on every page, without the irregularity"],
			campaigns: vec![campaign("irregular", 14_000, 200_000, c13_streams)]
		},
		Prop {
			id: "C14",
			level: "exploration",
			rule: "single violations of every rule at the level of the header and packet model, missing and swapped headers, flipped bits, random packets, incompletely specified codebooks; the verdict of a reference validator decides; non-trivial: the reference demands acceptance or rejection",
			assumptions: &[
				"left open: 64 or 65 explicit floor points, explicit floor points at zero, setup headers without a framing bit, the second codeword bit of sparse single-entry codebooks, streams without all headers, comment headers under 7 bytes"
			],
			campaigns: vec![
				campaign("setup-rules", 60_000, 600_000, c14_setup),
				campaign("headers", 20_000, 200_000, c14_headers),
				campaign("changed-fields", 60_000, 800_000, c14_fields),
				campaign("flipped-bits", 60_000, 800_000, c14_flips),
				campaign("audio-packets", 20_000, 200_000, c14_audio),
				campaign("underspecified", 8_000, 80_000, c14_underspecified),
				campaign("big-books", 40, 400, c14_big)
			]
		}
	]
}
