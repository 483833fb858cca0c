//! Generators for Vorbis streams and Ogg files.

use crate::audio::{self, Codes, Fate, Packet, Style};
use crate::engine::{Rng, Tape};
use crate::ogg::{self, Page, BOS, CONTINUED, EOS};
use crate::vorbis::*;

#[derive(Clone, Debug)]
pub struct Profile {
	/// Extreme sizes are drawn with chance 1/extreme (0: never)
	pub extreme: u64,
	/// Audio packets that legally end early
	pub early: bool,
	/// Audio packets too short for their mode information
	pub dropped: bool,
	/// Padded audio packets
	pub padded: bool,
	/// Start offsets and end trimming
	pub offsets: bool,
	/// Page boundaries anywhere, nil pages
	pub layout: bool,
	/// Incomplete Huffman trees
	pub underspecified: bool,
	/// At least this many audio packets (0: often just a few)
	pub min_packets: u64,
	pub max_packets: usize,
	pub max_channels: u64,
	/// Upper bound of the size of a packet in bits
	pub max_bits: usize,
	/// Granule positions in the middle of the stream are arbitrary
	pub wrong_gps: bool,
	/// Only what lewton decodes correctly
	pub lewton: bool
}

impl Default for Profile {
	fn default() -> Self {
		Profile {
			extreme: 12,
			early: true,
			dropped: true,
			padded: true,
			offsets: true,
			layout: true,
			underspecified: false,
			min_packets: 0,
			max_packets: 40,
			max_channels: 255,
			max_bits: 6000,
			wrong_gps: false,
			lewton: false
		}
	}
}

impl Profile {
	pub fn regular() -> Self {
		Profile { early: false, dropped: false, padded: false, offsets: false, ..Profile::default() }
	}
	pub fn small() -> Self {
		Profile { extreme: 0, max_packets: 12, max_channels: 3, max_bits: 1500, ..Profile::default() }
	}
}

fn xtreme(t: &mut Tape, p: &Profile) -> bool {
	p.extreme > 0 && t.chance(1, p.extreme)
}

pub fn gen_ident(t: &mut Tape, p: &Profile) -> Ident {
	let channels = match t.weighted(&[4, 5, 4, 1]) {
		0 => 1,
		1 => 2.min(p.max_channels),
		2 => t.range(1, p.max_channels.min(8)),
		_ if p.extreme > 0 => t.edge(1, p.max_channels),
		_ => t.range(1, p.max_channels)
	} as u8;
	let bs0 = if t.chance(1, 3) { t.range(6, 13) } else { t.range(6, 8) } as u8;
	let bs1 = if t.chance(1, 3) { t.range(bs0 as u64, 13) } else { t.range(bs0 as u64, (bs0 as u64 + 3).min(13)) } as u8;
	let br = |t: &mut Tape| -> i32 {
		match t.weighted(&[2, 2, 1]) {
			0 => 0,
			1 => t.range(0, 500_000) as i32,
			_ => t.edge(0, u32::MAX as u64) as u32 as i32
		}
	};
	Ident {
		version: 0,
		channels,
		rate: match t.weighted(&[3, 1]) {
			0 => *t.pick(&[44100, 48000, 8000, 1, u32::MAX]),
			_ => t.edge(1, u32::MAX as u64) as u32
		},
		br_max: br(t),
		br_nom: br(t),
		br_min: br(t),
		bs0,
		bs1,
		framing: 1,
		trailing: vec![]
	}
}

pub fn gen_blob(t: &mut Tape, max: u64) -> Vec<u8> {
	let n = match t.weighted(&[4, 3, 1]) {
		0 => t.range(0, 12.min(max)),
		1 => t.range(0, 120.min(max)),
		_ => t.edge(0, max)
	} as usize;
	let mut v: Vec<u8> = match t.weighted(&[3, 1, 1, 1]) {
		0 => {
			let b = t.bytes(n);
			b.iter().map(|b| 32 + b % 95).collect()
		}
		1 => t.bytes(n),
		2 => "TITLE=Ünïcödé ☃ 🎵".bytes().cycle().take(n).collect(),
		_ => {
			// As players and editors write them
			let mut v = t.pick(&FIELDS).to_vec();
			let b = t.bytes(n.min(20));
			v.extend(b.iter().map(|b| 32 + b % 95));
			v
		}
	};
	if t.chance(1, 12) {
		// Bytes at the ends that programs like to strip
		let b = *t.pick(b"\0 \n\r\t;=\xff\xef");
		let k = t.range(1, 4) as usize;
		if t.chance(1, 2) {
			v.extend(std::iter::repeat_n(b, k));
		} else {
			v.splice(0..0, std::iter::repeat_n(b, k));
		}
	}
	v
}

const FIELDS: [&[u8]; 12] = [
	b"TITLE=",
	b"title=",
	b"ARTIST=",
	b"ENCODER=Lavf58.76.100",
	b"encoder=",
	b"REPLAYGAIN_TRACK_GAIN=-7.03 dB",
	b"METADATA_BLOCK_PICTURE=AAAAAwAAAAlpbWFnZS9wbmcAAAAAAAAA",
	b"LOOPSTART=",
	b"=",
	b"VENDOR=",
	b"CHAPTER001=00:00:00.000",
	b"\xef\xbb\xbfTITLE="
];

pub fn gen_vendor(t: &mut Tape) -> Vec<u8> {
	let full = optivorbis::OPTIVORBIS_VERSION_TAG;
	let short = optivorbis::OPTIVORBIS_SHORT_VERSION_TAG;
	match t.weighted(&[3, 4, 1, 1, 1, 1, 1, 1, 1, 2, 1]) {
		0 => vec![],
		1 => gen_blob(t, 3000),
		2 => full.into(),
		3 => short.into(),
		4 => format!("Xiph.Org libVorbis I 20200704; {full}").into_bytes(),
		5 => format!("x; {short}").into_bytes(),
		6 => format!("; {short}").into_bytes(),
		7 => format!("x ;{full}").into_bytes(),
		8 => format!("x; {full} ").into_bytes(),
		9 => {
			let mut v = if t.chance(1, 2) { b"Xiph.Org libVorbis I 20200704".to_vec() } else { gen_blob(t, 30) };
			let n = t.range(1, 5) as usize;
			v.extend(std::iter::repeat_n(*t.pick(b"\0\0 \n;\xff"), n));
			v
		}
		_ => {
			let mut v = gen_blob(t, 20);
			v.extend(b"; ");
			v.extend(if t.chance(1, 2) { full } else { short }.as_bytes());
			if t.chance(1, 3) {
				v.pop();
			}
			v
		}
	}
}

pub fn gen_comments(t: &mut Tape, p: &Profile) -> Comments {
	let n = match t.weighted(&[3, 4, 1]) {
		0 => 0,
		1 => t.range(0, 6),
		_ => t.range(0, if p.extreme > 0 { 400 } else { 20 })
	};
	let mut comments = vec![];
	for _ in 0..n {
		comments.push(gen_blob(t, 300));
	}
	if xtreme(t, p) && t.chance(1, 2) {
		let size = *t.pick(&[65025u64, 65536, 100_000, 65025 - 100, 300_000]);
		let n = t.range(size - 40, size + 40) as usize;
		comments.push(t.bytes(n));
	}
	let vendor = gen_vendor(t);
	Comments { vendor, comments, framing: Some(1), trailing: vec![] }
}

fn shuffle<T>(r: &mut Rng, v: &mut [T]) {
	for i in (1..v.len()).rev() {
		v.swap(i, r.below(i as u64 + 1) as usize);
	}
}

/// Codeword lengths of a complete code with the given number of leaves (1 leaf: length 1).
pub fn gen_code(t: &mut Tape, used: usize) -> Vec<u8> {
	if used == 0 {
		return vec![];
	}
	if used == 1 {
		return vec![1];
	}
	let shape = t.weighted(&[3, 3, 2, 2]);
	let mut r = Rng::new(t.seed());
	let mut out: Vec<u8>;
	match shape {
		0 => {
			// As balanced as possible
			let d = crate::bits::ilog(used as u32 - 1) as u8;
			let short = (1usize << d) - used;
			out = vec![d; used];
			out[..short].fill(d - 1);
		}
		1 => {
			// Random splits
			out = vec![1, 1];
			while out.len() < used {
				let mut i = r.below(out.len() as u64) as usize;
				if out[i] >= 32 {
					i = (0..out.len()).min_by_key(|i| out[*i]).unwrap();
				}
				out[i] += 1;
				let d = out[i];
				out.push(d);
			}
		}
		2 => {
			// Deep chain first, then balanced splits of the shallowest leaves
			let chain = t.range(2, 33.min(used as u64)) as usize;
			out = (1..chain as u8).collect();
			out.push(chain as u8 - 1);
			let mut heap: std::collections::BinaryHeap<std::cmp::Reverse<u8>> =
				out.drain(..).map(std::cmp::Reverse).collect();
			while heap.len() < used {
				let std::cmp::Reverse(d) = heap.pop().unwrap();
				heap.push(std::cmp::Reverse(d + 1));
				heap.push(std::cmp::Reverse(d + 1));
			}
			out = heap.into_vec().into_iter().map(|d| d.0).collect();
		}
		_ => {
			// Splits biased to recent leaves (deep, irregular)
			out = vec![1, 1];
			while out.len() < used {
				let k = out.len() as u64;
				let mut i = (k - 1 - (r.next().trailing_zeros() as u64).min(k - 1)) as usize;
				if out[i] >= 32 {
					i = (0..out.len()).min_by_key(|i| out[*i]).unwrap();
				}
				out[i] += 1;
				let d = out[i];
				out.push(d);
			}
		}
	}
	match t.weighted(&[2, 1, 2]) {
		0 => out.sort(),
		1 => {
			out.sort();
			out.reverse()
		}
		_ => shuffle(&mut r, &mut out)
	}
	out
}

pub fn ordinary_word(t: &mut Tape) -> u32 {
	let e = t.range(768 - 20, 768 + 10) as u32;
	let m = if t.chance(1, 4) { t.edge(0, 0x1f_ffff) } else { t.range(1, 0x1f_ffff) };
	(t.below(2) as u32) << 31 | e << 21 | m as u32
}

pub fn gen_word(t: &mut Tape) -> u32 {
	match t.weighted(&[3, 2, 2, 2, 2]) {
		0 => *t.pick(&[0, 0x8000_0000, 0x6000_0000 | 1, 0xe018_0000, 0x6118_0000]),
		1 => t.below(1 << 32) as u32,
		2 => {
			// Ordinary magnitude, normalized mantissa
			let e = t.range(768 - 20, 768 + 20) as u32;
			(t.below(2) as u32) << 31 | e << 21 | 1 << 20 | t.below(1 << 20) as u32
		}
		3 => {
			// Small mantissa
			let e = t.range(0, 1023) as u32;
			let width = t.range(0, 21);
			let m = t.below(1 << width) as u32;
			(t.below(2) as u32) << 31 | e << 21 | m
		}
		_ => {
			// Extreme exponents
			let e = t.edge(0, 1023) as u32;
			(t.below(2) as u32) << 31 | e << 21 | t.edge(0, 0x1f_ffff) as u32
		}
	}
}

pub fn gen_book(t: &mut Tape, p: &Profile, entries_hint: Option<u64>) -> Book {
	let entries = match entries_hint {
		Some(n) => n,
		None => match t.weighted(&[6, 3, 2, 1]) {
			0 => t.range(1, 16),
			1 => t.range(1, 64),
			2 => t.range(1, 600),
			_ => t.range(0, 3)
		}
	} as usize;
	let used = match t.weighted(&[5, 3, 1]) {
		0 => entries,
		1 => t.range(1.min(entries as u64), entries as u64) as usize,
		_ => t.range(0, 2.min(entries as u64)) as usize
	};
	let used = used.min(4000);
	let code = gen_code(t, used);
	let mut lens = vec![0u8; entries];
	if used == entries {
		lens = code;
	} else {
		let mut r = Rng::new(t.seed());
		// Random positions for the used entries, keeping the order of the code
		let mut left = used;
		for (i, l) in lens.iter_mut().enumerate() {
			if left > 0 && r.below((entries - i) as u64) < left as u64 {
				*l = code[used - left];
				left -= 1;
			}
		}
	}
	if p.underspecified && used >= 1 && t.chance(1, 3) {
		let k = t.range(1, used as u64 - (used > 1) as u64) as usize;
		let mut r = Rng::new(t.seed());
		for _ in 0..k {
			let i = r.below(entries as u64) as usize;
			if t.chance(1, 3) {
				lens[i] = (lens[i] + 1).min(32) * (lens[i] > 0) as u8;
			} else if lens.iter().filter(|l| **l > 0).count() > 1 {
				lens[i] = 0;
			}
		}
	}
	let sorted = lens.windows(2).all(|w| w[0] <= w[1]);
	let enc = if lens.contains(&0) {
		LenEnc::Sparse
	} else if sorted && t.chance(2, 3) {
		LenEnc::Ordered
	} else if t.chance(1, 4) {
		LenEnc::Sparse
	} else {
		LenEnc::Dense
	};
	let mut lookup = t.weighted(&[if p.lewton { 1 } else { 2 }, 3, 2]) as u8;
	let dims = match t.weighted(&[5, 4, 2, 1]) {
		0 => t.range(1, 2),
		1 => *t.pick(&[1, 2, 4, 8, 3, 5, 6, 16]),
		2 => t.range(1, 32),
		_ => {
			if lookup == 2 {
				t.range(1, 64)
			} else {
				t.edge(1, 65535)
			}
		}
	} as u16;
	if lookup == 2 && entries as u64 * dims as u64 > 20_000 {
		lookup = 1;
	}
	let mut b = Book {
		sync: 0x564342,
		dims,
		lens,
		enc,
		lookup,
		min: 0,
		delta: 0,
		value_bits: 0,
		seq: false,
		mults: vec![]
	};
	if lookup > 0 {
		b.min = if p.lewton { ordinary_word(t) } else { gen_word(t) };
		b.delta = if p.lewton { ordinary_word(t) } else { gen_word(t) };
		b.value_bits = t.edge(1, 16) as u8;
		b.seq = t.chance(1, 2);
		let mut r = Rng::new(t.seed());
		b.mults = (0..b.mult_count()).map(|_| r.below(1 << b.value_bits) as u32).collect();
	}
	b
}

fn gcd(a: u64, b: u64) -> u64 {
	if b == 0 {
		a
	} else {
		gcd(b, a % b)
	}
}

/// A book number from the list. The last ones are more likely if there are many.
fn pick_book(t: &mut Tape, list: &[u8]) -> u8 {
	if list.len() >= 128 && t.chance(1, 4) {
		return list[list.len() - 1 - t.below(3) as usize];
	}
	*t.pick(list)
}

pub fn gen_floor(t: &mut Tape, books: &[Book], live: &[u8]) -> Floor {
	let nbooks = books.len() as u64;
	let range = t.range(0, 15) as u8;
	let room = ((1u64 << range) - 1).min(63) as usize;
	let mut f = Floor { typ: 1, mult: t.range(1, 4) as u8, range, ..Default::default() };
	let want = if t.chance(1, 6) { t.range(0, 31) } else { t.range(0, 6) } as usize;
	let top = if t.chance(1, 4) { 15 } else { 3 };
	let top = t.range(0, top);
	let parts: Vec<u8> = (0..want).map(|_| t.range(0, top) as u8).collect();
	let count = Floor::class_count(&parts);
	for _ in 0..count {
		let sub = t.range(0, 3) as u8;
		let mut c = FClass { dim: t.range(1, 8) as u8, sub, ..Default::default() };
		if sub > 0 {
			c.master = Some(if live.is_empty() || t.chance(1, 40) { t.below(nbooks) as u8 } else { pick_book(t, live) });
		}
		for _ in 0..1 << sub {
			let none = t.chance(1, 4);
			let b = if live.is_empty() || t.chance(1, 40) { t.below(nbooks) as u8 } else { pick_book(t, live) };
			// A book number of 255 cannot be encoded as a subclass book
			c.books.push(if none || b == 255 { None } else { Some(b) });
		}
		f.classes.push(c);
	}
	let mut total = 0;
	for p in parts {
		let d = f.classes[p as usize].dim as usize;
		if total + d > room {
			break;
		}
		total += d;
		f.parts.push(p);
	}
	f.classes.truncate(Floor::class_count(&f.parts));
	// Distinct positions, excluding the implicit ones
	let mut r = Rng::new(t.seed());
	if range <= 7 {
		let mut all: Vec<u32> = (1..1u32 << range).collect();
		shuffle(&mut r, &mut all);
		all.truncate(total);
		f.xs = all;
	} else {
		let mut seen = std::collections::BTreeSet::new();
		while f.xs.len() < total {
			let x = 1 + r.below((1 << range) - 1) as u32;
			if seen.insert(x) {
				f.xs.push(x);
			}
		}
	}
	f
}

pub fn gen_residue(t: &mut Tape, id: &Ident, books: &[Book], live: &[u8], p: &Profile) -> Residue {
	let vq: Vec<u8> = live.iter().copied().filter(|b| books[*b as usize].lookup > 0 && books[*b as usize].dims <= 64).collect();
	let classable: Vec<u8> = if live.is_empty() { vec![0] } else { live.to_vec() };
	// Prefer class books that allow several classifications
	let mut best = pick_book(t, &classable);
	for _ in 0..3 {
		let cand = pick_book(t, &classable);
		if max_classes(&books[cand as usize]) > max_classes(&books[best as usize]) {
			best = cand;
		}
	}
	let cap = max_classes(&books[best as usize]);
	if cap == 0 {
		// No book can be a class book: an unusable configuration is not allowed, so use one
		// classification with a book that has at least one entry
		best = (0..books.len()).find(|b| !books[*b].lens.is_empty()).expect("one non-empty book") as u8;
	}
	let cap = max_classes(&books[best as usize]).max(1);
	let classifications = match t.weighted(&[3, 2]) {
		0 => t.range(1, cap.min(4)),
		_ => t.range(1, cap)
	} as u8;
	let mut lcm = 1u64;
	let mut cbooks = vec![];
	let density = if p.lewton { t.range(5, 8) } else { t.range(1, 6) };
	for _ in 0..classifications {
		let mut b = [None; 8];
		for x in b.iter_mut().take(if p.lewton { 7 } else { 8 }) {
			if !vq.is_empty() && t.chance(density, 8) {
				let k = pick_book(t, &vq);
				let d = books[k as usize].dims as u64;
				let l = lcm / gcd(lcm, d) * d;
				if l <= if p.lewton { 32 } else { 1024 } {
					lcm = l;
					*x = Some(k);
				}
			}
		}
		cbooks.push(b);
	}
	let typ = t.range(0, 2) as u16;
	let half = 1u64 << (id.bs1 - 1);
	let size = if typ == 2 { half * id.channels as u64 } else { half };
	let mult = match t.weighted(&[4, 2, 1]) {
		0 => t.range(1, 8),
		1 => t.range(1, 64),
		_ => t.edge(1, ((1 << 24) / lcm).max(1))
	};
	let psize = (lcm * mult).min((1 << 24) / lcm * lcm) as u32;
	let begin = match t.weighted(if p.lewton { &[12, 1, 1] } else { &[4, 2, 1] }) {
		0 => 0,
		1 => t.range(0, size),
		_ => t.edge(0, (1 << 24) - 1)
	} as u32;
	let max_end = (1u64 << 24) - 1;
	let most = if p.extreme > 0 && t.chance(1, 8) { 600 } else { 24 };
	let parts = t.range(p.lewton as u64, most);
	let end = match t.weighted(&[5, 2, 1, 1]) {
		0 => (begin as u64 + psize as u64 * parts + t.range(0, 3)).min(max_end),
		1 => t.range(begin as u64, max_end.min(begin as u64 + size)),
		2 => t.edge(begin as u64, max_end),
		_ => begin as u64
	} as u32;
	let (mut begin, mut end, mut psize) = (begin, end, psize);
	if p.lewton && t.chance(4, 5) {
		// Values that matter for the result
		let short = 1u64 << (id.bs0 - 1);
		psize = (lcm * t.range(1, (short / lcm).clamp(1, 8))) as u32;
		begin = 0;
		end = (psize as u64 * t.range(1, (short / psize as u64).clamp(1, 30))) as u32;
	}
	Residue { typ, begin, end, psize, classifications, classbook: best, books: cbooks, long_cascade: t.chance(1, 4) }
}

fn max_classes(b: &Book) -> u64 {
	if b.lens.is_empty() || b.dims == 0 {
		return 0;
	}
	(crate::bits::lookup1_values(b.lens.len() as u32, b.dims) as u64).min(64)
}

pub fn gen_mapping(t: &mut Tape, id: &Ident, nf: u64, nr: u64, p: &Profile) -> Mapping {
	let n = match t.weighted(&[5, 2, 1]) {
		0 => 1,
		1 => t.range(1, 4),
		_ => t.range(1, 16)
	};
	let mut m = Mapping { typ: 0, long_submaps: t.chance(1, 8), ..Default::default() };
	let ch = id.channels as u64;
	if ch > 1 && t.chance(1, 2) {
		let steps = if xtreme(t, p) { t.range(1, 256) } else { t.range(1, ch.min(6)) };
		for _ in 0..steps {
			let a = t.below(ch);
			let b = (a + 1 + t.below(ch - 1)) % ch;
			m.coupling.push((a as u8, b as u8));
		}
	}
	if n > 1 {
		let mut r = Rng::new(t.seed());
		m.mux = (0..ch).map(|_| r.below(n) as u8).collect();
	} else {
		m.mux = vec![0; ch as usize];
	}
	for _ in 0..n {
		m.subs.push((0, t.below(nf) as u8, t.below(nr) as u8));
	}
	m
}

pub fn gen_setup(t: &mut Tape, id: &Ident, p: &Profile) -> Setup {
	let mut s = Setup { times: vec![0], framing: true, ..Default::default() };
	let nbooks = if xtreme(t, p) { t.edge(1, 256) } else { t.range(1, 10) };
	for i in 0..nbooks {
		let hint = if i == 0 {
			// The first book is never empty
			Some(t.range(1, 40))
		} else if xtreme(t, p) && t.chance(1, 4) {
			Some(match t.weighted(&[2, 1]) {
				0 => t.range(600, 3000),
				_ => t.range(65_500, 140_000)
			})
		} else {
			None
		};
		s.books.push(gen_book(t, p, hint));
	}
	let live: Vec<u8> = (0..s.books.len()).filter(|b| s.books[*b].used() > 0).map(|b| b as u8).collect();
	let count = |t: &mut Tape| -> u64 {
		if xtreme(t, p) {
			t.edge(1, 64)
		} else {
			t.range(1, 3)
		}
	};
	for _ in 0..count(t) {
		s.floors.push(gen_floor(t, &s.books, &live));
	}
	for _ in 0..count(t) {
		s.residues.push(gen_residue(t, id, &s.books, &live, p));
	}
	for _ in 0..count(t) {
		let m = gen_mapping(t, id, s.floors.len() as u64, s.residues.len() as u64, p);
		s.mappings.push(m);
	}
	for _ in 0..count(t) {
		s.modes.push(Mode { big: t.chance(1, 2), window: 0, transform: 0, mapping: t.below(s.mappings.len() as u64) as u8 });
	}
	s
}

#[derive(Clone)]
pub struct AudioIn {
	pub bytes: Vec<u8>,
	pub dec: Packet
}

/// A generated Vorbis stream.
pub struct VStream {
	pub id: Ident,
	pub id_bytes: Vec<u8>,
	pub comments: Comments,
	pub comment_bytes: Vec<u8>,
	pub setup: Setup,
	pub setup_bytes: Vec<u8>,
	pub codes: Codes,
	pub audio: Vec<AudioIn>,
	pub serial: u32,
	pub pages: Vec<Page>
}

impl VStream {
	pub fn kept(&self) -> impl Iterator<Item = &AudioIn> {
		self.audio.iter().filter(|a| a.dec.fate != Fate::Dropped)
	}
	pub fn encode(&self) -> Vec<u8> {
		ogg::encode_pages(&self.pages)
	}
	pub fn describe(&self) -> String {
		let kept = self.kept().count();
		format!(
			"{} ch, blocksizes 2^{}/2^{}, {} books (max {} entries), {} floors, {} residues, {} mappings, {} modes, {} audio packets ({} kept), {} pages",
			self.id.channels,
			self.id.bs0,
			self.id.bs1,
			self.setup.books.len(),
			self.setup.books.iter().map(|b| b.lens.len()).max().unwrap_or(0),
			self.setup.floors.len(),
			self.setup.residues.len(),
			self.setup.mappings.len(),
			self.setup.modes.len(),
			self.audio.len(),
			kept,
			self.pages.len()
		)
	}
	pub fn classify(&self, cx: &mut crate::engine::Cx) {
		cx.label_if(self.id.channels > 8, "channels > 8");
		cx.label_if(self.setup.books.len() > 64, "books > 64");
		if self.setup.books.len() > 250 {
			let u = self.usage();
			let last = u.last().is_some_and(|u| u.iter().any(|n| *n > 0));
			cx.label_if(u.len() == 256 && last, "codebook 255 in use");
			cx.label_if(self.audio.iter().any(|a| a.dec.info.mode == Some(63)), "mode 63 in use");
			cx.label_if(self.setup.mappings.iter().any(|m| m.coupling.len() == 256), "256 coupling steps");
		}
		if self.setup.books.iter().any(|b| b.used() > 4096) {
			let u = self.usage();
			cx.label_if(u.iter().any(|u| u.iter().filter(|n| **n > 0).count() > 4096), "more than 4096 entries in use");
		}
		cx.label_if(self.setup.books.iter().any(|b| b.lens.len() > 65535), "book > 65535 entries");
		cx.label_if(self.setup.books.iter().any(|b| b.lens.contains(&32)), "32-bit codewords");
		cx.label_if(self.setup.books.iter().any(|b| b.enc == LenEnc::Ordered), "ordered book");
		cx.label_if(self.setup.books.iter().any(|b| b.enc == LenEnc::Sparse), "sparse book");
		cx.label_if(self.setup.books.iter().any(|b| b.used() == 1), "single-used-entry book");
		cx.label_if(self.setup.modes.len() > 1, "several modes");
		cx.label_if(self.setup.mappings.iter().any(|m| m.subs.len() > 1), "submaps");
		cx.label_if(self.setup.mappings.iter().any(|m| !m.coupling.is_empty()), "coupling");
		for ty in 0..3 {
			cx.label_if(self.setup.residues.iter().any(|r| r.typ == ty), &format!("residue type {ty}"));
		}
		cx.label_if(self.audio.iter().any(|a| a.dec.fate == Fate::Early), "packet ends early");
		cx.label_if(self.audio.iter().any(|a| a.dec.fate == Fate::Dropped), "packet dropped");
		cx.label_if(self.audio.iter().any(|a| a.bytes.len() > 65025), "packet > 255 segments");
		cx.label_if(self.audio.is_empty(), "no audio packets");
		cx.label_if(self.audio.len() > 255, "more than 255 audio packets");
		let entries: usize = self.audio.iter().map(|a| a.dec.evs.iter().filter(|e| matches!(e, audio::Ev::Entry(..))).count()).sum();
		cx.label_if(entries > 50, "more than 50 codewords");
		cx.label_if(self.audio.iter().any(|a| a.dec.info.blocksize == Some(self.id.blocksize(true))), "big block");
	}
	/// Codewords decoded in the whole stream, per book and entry
	pub fn usage(&self) -> Vec<Vec<u64>> {
		usage_of(&self.setup, self.audio.iter().map(|a| &a.dec))
	}
}

pub fn usage_of<'a>(s: &Setup, pkts: impl Iterator<Item = &'a Packet>) -> Vec<Vec<u64>> {
	let mut u: Vec<Vec<u64>> = s.books.iter().map(|b| vec![0; b.lens.len()]).collect();
	for p in pkts {
		for e in &p.evs {
			if let audio::Ev::Entry(b, e) = e {
				u[*b as usize][*e as usize] += 1;
			}
		}
	}
	u
}

pub fn gen_audio(t: &mut Tape, id: &Ident, s: &Setup, codes: &Codes, p: &Profile) -> Vec<AudioIn> {
	let n = match t.weighted(&[5, 4, 1, !p.lewton as u64]) {
		_ if p.min_packets > 0 => t.range(p.min_packets, p.max_packets as u64),
		0 => t.range(2 * p.lewton as u64, 8.min(p.max_packets as u64)),
		1 => t.range(0, p.max_packets as u64),
		2 => 1,
		_ => {
			if p.extreme > 0 {
				t.range(0, 700)
			} else {
				0
			}
		}
	} as usize;
	let tiny = n > 100;
	let kind = t.range(p.lewton as u64, 5) as u8;
	let energy = if p.lewton { 8 } else { *t.pick(&[8u8, 4, 7, 1, 0]) };
	let uniform = t.chance(1, 2);
	let mut out = vec![];
	let huge = !tiny && xtreme(t, p);
	for _ in 0..n {
		let style = Style {
			kind: if uniform { kind } else { t.range(0, 5) as u8 },
			seed: t.seed(),
			energy,
			mode: t.below(s.modes.len() as u64) as u32,
			max_bits: if tiny { 200 } else if huge { 600_000.max(p.max_bits) } else { p.max_bits }
		};
		let mut b = audio::encode(id, s, codes, style);
		let what = t.weighted(&[
			16,
			if p.early { 2 } else { 0 },
			if p.dropped { 1 } else { 0 },
			if p.padded { 2 } else { 0 }
		]);
		match what {
			1 => {
				let cut = t.edge(0, b.len() as u64) as usize;
				b.truncate(b.len() - cut.min(b.len()));
			}
			2 => b.truncate(t.range(0, 1) as usize * (ilog_modes(s) >= 7) as usize),
			3 => {
				let n = match t.weighted(&[4, 1, 1]) {
					0 => t.range(1, 8),
					1 => t.range(1, 300),
					_ => *t.pick(&[255u64, 510, 254])
				} as usize;
				let mut pad = t.bytes(n);
				b.append(&mut pad);
			}
			_ => ()
		}
		let mut dec = audio::decode(id, s, codes, &b);
		let ok = match &dec.fate {
			Fate::Full => true,
			Fate::Early => p.early,
			Fate::Dropped => p.dropped,
			Fate::Invalid(_) => false
		};
		if !ok {
			b = audio::encode(id, s, codes, Style { energy: 0, ..style });
			dec = audio::decode(id, s, codes, &b);
		}
		out.push(AudioIn { bytes: b, dec });
	}
	out
}

fn ilog_modes(s: &Setup) -> u32 {
	crate::bits::ilog(s.modes.len() as u32 - 1)
}

/// Total samples decoded up to and including each audio packet, given the blocksizes of the kept
/// ones (`None`: dropped packet).
pub fn running_samples(blocks: &[Option<u32>]) -> Vec<i64> {
	let mut total = 0i64;
	let mut prev: Option<u32> = None;
	blocks
		.iter()
		.map(|b| {
			if let Some(b) = b {
				if let Some(p) = prev {
					total += (p as i64 + *b as i64) / 4;
				}
				prev = Some(*b);
			}
			total
		})
		.collect()
}

#[derive(Clone, Debug)]
pub struct Layout {
	/// Page ends are drawn per page from 1..=target segments
	pub targets: (u64, u64),
	/// Page boundaries inside packets
	pub split: bool,
	/// Page boundary after every packet
	pub per_packet: bool,
	pub nil_pages: bool,
	pub headers_split: bool
}

pub fn gen_layout(t: &mut Tape, p: &Profile) -> Layout {
	if !p.layout {
		return Layout { targets: (255, 255), split: true, per_packet: false, nil_pages: false, headers_split: false };
	}
	match t.weighted(&[3, 2, 2, 2, 2]) {
		0 => Layout { targets: (255, 255), split: true, per_packet: false, nil_pages: false, headers_split: false },
		1 => Layout { targets: (255, 255), split: false, per_packet: true, nil_pages: t.chance(1, 4), headers_split: true },
		2 => Layout { targets: (1, 10), split: true, per_packet: false, nil_pages: t.chance(1, 3), headers_split: t.chance(1, 2) },
		3 => Layout { targets: (1, 60), split: false, per_packet: false, nil_pages: false, headers_split: t.chance(1, 2) },
		_ => Layout { targets: (1, 255), split: t.chance(1, 2), per_packet: false, nil_pages: t.chance(1, 4), headers_split: t.chance(1, 2) }
	}
}

/// Splits packets over pages. Groups of packets start on fresh pages. Every packet carries the
/// granule position its page gets if it is the last one to end there.
pub fn paginate(t: &mut Tape, groups: &[Vec<(&[u8], i64)>], lay: &Layout, serial: u32) -> Vec<Page> {
	let mut pages: Vec<Page> = vec![];
	let new_page = |pages: &mut Vec<Page>, cont: bool| {
		let seq = pages.len() as u32;
		pages.push(Page {
			flags: if seq == 0 { BOS } else { 0 } | if cont { CONTINUED } else { 0 },
			gp: -1,
			serial,
			seq,
			segs: vec![],
			body: vec![]
		});
	};
	for (gi, g) in groups.iter().enumerate() {
		if g.is_empty() {
			continue;
		}
		let header = gi < 2;
		new_page(&mut pages, false);
		let mut target = if header { 255 } else { t.range(lay.targets.0, lay.targets.1) } as usize;
		for (k, (data, gp)) in g.iter().enumerate() {
			let nsegs = data.len() / 255 + 1;
			let cur = pages.last().unwrap();
			// Decide on a boundary before this packet
			let boundary = k > 0
				&& (if header { lay.headers_split } else { lay.per_packet }
					|| cur.segs.len() >= target
					|| (!lay.split && cur.segs.len() + nsegs > target));
			if boundary {
				if lay.nil_pages && t.chance(1, 6) {
					new_page(&mut pages, false);
				}
				new_page(&mut pages, false);
				target = if header { 255 } else { t.range(lay.targets.0, lay.targets.1) } as usize;
			}
			for i in 0..nsegs {
				let full = pages.last().unwrap().segs.len();
				if full == 255 || (i > 0 && lay.split && full >= target) {
					new_page(&mut pages, i > 0);
					if lay.split {
						target = if header { 255 } else { t.range(lay.targets.0, lay.targets.1) } as usize;
					}
				}
				let page = pages.last_mut().unwrap();
				let chunk = &data[i * 255..((i + 1) * 255).min(data.len())];
				page.segs.push(chunk.len() as u8);
				page.body.extend(chunk);
				if i + 1 == nsegs {
					page.gp = *gp;
				}
			}
		}
	}
	if let Some(l) = pages.last_mut() {
		l.flags |= EOS;
	}
	pages
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum GpPlan {
	/// Positions are what an encoder would write, with this start offset, and the last page's
	/// position set to the full count minus this trim
	Regular { offset: i64, trim: i64 }
}

pub fn nominal_gps(audio: &[AudioIn], offset: i64, trim: i64) -> Vec<i64> {
	let blocks: Vec<Option<u32>> =
		audio.iter().map(|a| if a.dec.fate == Fate::Dropped { None } else { a.dec.info.blocksize }).collect();
	let mut g: Vec<i64> = running_samples(&blocks).into_iter().map(|s| s.wrapping_add(offset)).collect();
	if let Some(l) = g.last_mut() {
		*l = l.wrapping_sub(trim);
	}
	g
}

pub fn gen_offsets(t: &mut Tape, p: &Profile, audio: &[AudioIn]) -> (i64, i64) {
	if !p.offsets {
		return (0, 0);
	}
	let blocks: Vec<u32> = audio.iter().filter(|a| a.dec.fate != Fate::Dropped).map(|a| a.dec.info.blocksize.unwrap()).collect();
	let last = if blocks.len() >= 2 { (blocks[blocks.len() - 1] as i64 + blocks[blocks.len() - 2] as i64) / 4 } else { 0 };
	let offset = match t.weighted(&[4, 2, 2, 1]) {
		0 => 0,
		1 if t.chance(1, 6) => -(t.edge(0, i64::MAX as u64 / 2) as i64),
		1 => -(t.range(0, 4000) as i64),
		2 => t.range(0, 1 << 40) as i64,
		_ => t.edge(0, i64::MAX as u64 / 2) as i64
	};
	let trim = match t.weighted(&[4, 3, 2]) {
		0 => 0,
		1 => t.range(0, last.max(0) as u64) as i64,
		_ => t.range(0, 20_000) as i64 - 10_000
	};
	(offset, trim)
}

pub fn gen_stream(t: &mut Tape, p: &Profile, serial: u32) -> VStream {
	let id = gen_ident(t, p);
	let comments = gen_comments(t, p);
	let setup = gen_setup(t, &id, p);
	gen_stream_from(t, p, serial, id, comments, setup)
}

pub fn gen_stream_from(t: &mut Tape, p: &Profile, serial: u32, id: Ident, comments: Comments, setup: Setup) -> VStream {
	let codes = Codes::new(&setup).expect("generated codes are not overspecified");
	let audio = gen_audio(t, &id, &setup, &codes, p);
	let mut s = VStream {
		id_bytes: id.encode(),
		id,
		comment_bytes: comments.encode(),
		comments,
		setup_bytes: vec![],
		setup,
		codes,
		audio,
		serial,
		pages: vec![]
	};
	s.setup_bytes = s.setup.encode(s.id.channels);
	let (offset, trim) = gen_offsets(t, p, &s.audio);
	let lay = gen_layout(t, p);
	layout_stream(t, &mut s, &lay, offset, trim);
	if p.wrong_gps {
		wrong_gps(t, &mut s);
	}
	s
}

/// A stream of tens of thousands of small packets, which are repetitions of a few.
pub fn gen_many(t: &mut Tape) -> VStream {
	let p = Profile { max_packets: 60, max_bits: 500, max_channels: 2, early: false, dropped: t.chance(1, 4), ..Profile::small() };
	let mut id = gen_ident(t, &p);
	id.bs0 = 6;
	id.bs1 = t.range(6, 8) as u8;
	let comments = gen_comments(t, &p);
	let setup = gen_setup(t, &id, &p);
	let mut s = gen_stream_from(t, &p, 7, id, comments, setup);
	if s.audio.is_empty() {
		return s;
	}
	let n = match t.weighted(&[3, 1, 2]) {
		0 => t.range(65_525, 65_560),
		1 => t.range(32_760, 32_780),
		_ => t.edge(20_000, 140_000)
	};
	// Some setups take many steps for few bits
	let work = s.setup.residues.iter().map(|r| 8 * 256 / r.psize as u64 + 4 * s.setup.books[r.classbook as usize].dims as u64).max().unwrap_or(0);
	let n = n.min(1_000_000_000 / (work + 1));
	let mut r = Rng::new(t.seed());
	let first = s.audio.len().min(3);
	while (s.audio.len() as u64) < n {
		let i = r.below(s.audio.len().min(60) as u64) as usize;
		let a = s.audio[i].clone();
		s.audio.push(a);
	}
	let (n, k) = (s.audio.len(), r.below(first as u64 + 1) as usize);
	s.audio.swap(0, k.min(first - 1));
	if s.audio[n - 1].dec.fate == Fate::Dropped && t.chance(1, 2) {
		s.audio.pop();
	}
	let (offset, trim) = gen_offsets(t, &p, &s.audio);
	let lay = match t.weighted(&[3, 1, 1]) {
		0 => Layout { targets: (255, 255), split: true, per_packet: false, nil_pages: false, headers_split: false },
		1 => Layout { targets: (100, 255), split: false, per_packet: false, nil_pages: false, headers_split: false },
		_ => Layout { targets: (1, 1), split: false, per_packet: true, nil_pages: false, headers_split: false }
	};
	layout_stream(t, &mut s, &lay, offset, trim);
	s
}

/// A stream whose first packets hold symbols that are rare in the others, so that optimization
/// makes these packets bigger, and fewer of them fit on the first audio page.
pub fn gen_growing(t: &mut Tape) -> VStream {
	let m = t.range(440, 503) as u32;
	let entries = *t.pick(&[16usize, 8, 16]);
	let width = crate::bits::ilog(entries as u32 - 1) as u8;
	let big = t.chance(3, 4);
	let book = Book {
		sync: 0x564342,
		dims: 1,
		lens: vec![width; entries],
		enc: LenEnc::Dense,
		lookup: 2,
		min: 0,
		delta: 0x60000001,
		value_bits: 4,
		seq: false,
		mults: (0..entries as u32).collect()
	};
	let setup = Setup {
		books: vec![Book { lens: vec![1], lookup: 0, mults: vec![], ..book.clone() }, book],
		times: vec![0],
		floors: vec![Floor { typ: 1, mult: 4, range: 4, ..Default::default() }],
		residues: vec![Residue {
			typ: 1,
			begin: 0,
			end: m,
			psize: m,
			classifications: 1,
			classbook: 0,
			books: vec![[Some(1), None, None, None, None, None, None, None]],
			long_cascade: false
		}],
		mappings: vec![Mapping { mux: vec![0; 1], subs: vec![(0, 0, 0)], ..Default::default() }],
		modes: vec![Mode { big, ..Default::default() }],
		framing: true,
		..Default::default()
	};
	let id = Ident { version: 0, channels: 1, rate: 48000, br_max: 0, br_nom: 0, br_min: 0, bs0: 10, bs1: 11, framing: 1, trailing: vec![] };
	let comments = Comments { framing: Some(1), ..Default::default() };
	let codes = Codes::new(&setup).unwrap();
	let n = t.range(257, 700);
	let rare = t.range(1, 80);
	let mut r = Rng::new(t.seed());
	let mut audio = vec![];
	for i in 0..n {
		let mut w = crate::bits::BitW::default();
		w.put(0, 1 + 2 * big as u32);
		w.flag(true);
		w.put(r.below(4096), 12);
		w.flag(false);
		for _ in 0..m {
			let e = if i < rare { 1 + r.below(entries as u64 - 1) } else { 0 };
			w.code(codes.codes[1][e as usize].unwrap(), width);
		}
		let dec = audio::decode(&id, &setup, &codes, &w.buf);
		audio.push(AudioIn { bytes: w.buf, dec });
	}
	let mut s = VStream {
		id_bytes: id.encode(),
		id,
		comment_bytes: comments.encode(),
		comments,
		setup_bytes: setup.encode(1),
		setup,
		codes,
		audio,
		serial: 7,
		pages: vec![]
	};
	let (offset, trim) = gen_offsets(t, &Profile::default(), &s.audio);
	let lay = Layout { targets: (255, 255), split: t.chance(1, 2), per_packet: false, nil_pages: false, headers_split: false };
	layout_stream(t, &mut s, &lay, offset, trim);
	s
}

/// A stream with as many codebooks, floors, residues, mappings, modes, submaps and coupling steps
/// as there can be, all of which its packets use.
pub fn gen_wide(t: &mut Tape) -> VStream {
	let p = Profile { min_packets: 20, max_packets: 90, max_bits: 6000, max_channels: 4, extreme: 0, early: t.chance(1, 3), ..Profile::default() };
	let mut id = gen_ident(t, &p);
	id.bs0 = id.bs0.min(9);
	id.bs1 = id.bs1.clamp(id.bs0, 11);
	if t.chance(1, 12) {
		id.channels = t.range(250, 255) as u8;
	}
	let most = |t: &mut Tape, n: u64| -> u64 {
		match t.weighted(&[5, 1, 1]) {
			0 => n,
			1 => n - 1,
			_ => t.range(n / 2, n)
		}
	};
	let mut s = Setup { times: vec![0], framing: true, ..Default::default() };
	let nbooks = most(t, 256);
	for i in 0..nbooks {
		let hint = if i == 0 || i + 3 >= nbooks { t.range(2, 80) } else { t.range(1, 12) };
		let mut b = gen_book(t, &p, Some(hint));
		if i + 3 >= nbooks && b.used() == 0 {
			b = gen_book(t, &p, Some(1));
		}
		s.books.push(b);
	}
	let live: Vec<u8> = (0..s.books.len()).filter(|b| s.books[*b].used() > 0).map(|b| b as u8).collect();
	let (nf, nr, nm, modes) = (most(t, 64), most(t, 64), most(t, 64), most(t, 64));
	for i in 0..nf {
		let mut f = gen_floor(t, &s.books, &live);
		if i + 3 >= nf || t.chance(1, 16) {
			// As many partitions as there can be
			for _ in 0..4 {
				let g = gen_floor(t, &s.books, &live);
				if g.parts.len() > f.parts.len() {
					f = g;
				}
			}
		}
		s.floors.push(f);
	}
	// Class books whose vectors have many values
	let many: Vec<u8> = live.iter().copied().filter(|b| max_classes(&s.books[*b as usize]) > 12).collect();
	for _ in 0..nr {
		let class = if t.chance(1, 3) && !many.is_empty() { &many } else { &live };
		let mut r = gen_residue(t, &id, &s.books, &live, &p);
		let best = pick_book(t, class);
		if max_classes(&s.books[best as usize]) >= r.classifications as u64 {
			r.classbook = best;
		}
		s.residues.push(r);
	}
	for i in 0..nm {
		let n = match t.weighted(&[3, 1, 1]) {
			0 => 1,
			1 => t.range(1, 16),
			_ => 16
		};
		let mut m = Mapping { typ: 0, long_submaps: t.chance(1, 8), ..Default::default() };
		let ch = id.channels as u64;
		if ch > 1 {
			for _ in 0..match t.weighted(&[3, 2, 1]) {
				0 => 0,
				1 => 256,
				_ => t.edge(1, 256)
			} {
				let a = t.below(ch);
				let b = (a + 1 + t.below(ch - 1)) % ch;
				m.coupling.push((a as u8, b as u8));
			}
		}
		let mut r = Rng::new(t.seed());
		m.mux = (0..ch).map(|_| if n == 1 { 0 } else { r.below(n) as u8 }).collect();
		if n > 1 && t.chance(1, 2) {
			m.mux[0] = n as u8 - 1;
		}
		for _ in 0..n {
			m.subs.push(if t.chance(1, 2) {
				(0, i.min(nf - 1) as u8, i.min(nr - 1) as u8)
			} else {
				(0, t.below(nf) as u8, t.below(nr) as u8)
			});
		}
		s.mappings.push(m);
	}
	for i in 0..modes {
		s.modes.push(Mode {
			big: t.chance(1, 2),
			window: 0,
			transform: 0,
			mapping: if t.chance(3, 4) { (nm - 1).saturating_sub(i) } else { t.below(nm) } as u8
		});
	}
	let comments = Comments { framing: Some(1), ..Default::default() };
	gen_stream_from(t, &p, 7, id, comments, s)
}

/// A stream that uses thousands of the entries of a codebook.
pub fn gen_dictionary(t: &mut Tape) -> VStream {
	let entries = *t.pick(&[5000u64, 4097, 4096, 8192, 8193, 10_000]);
	let used = if t.chance(1, 2) { entries } else { t.range(entries / 2, entries) } as usize;
	let code = gen_code(t, used);
	let mut lens = vec![0u8; entries as usize];
	let mut r = Rng::new(t.seed());
	let mut left = used;
	let n = lens.len();
	for (i, l) in lens.iter_mut().enumerate() {
		if left > 0 && r.below((n - i) as u64) < left as u64 {
			*l = code[used - left];
			left -= 1;
		}
	}
	let sorted = lens.windows(2).all(|w| w[0] <= w[1]);
	let enc = match lens.contains(&0) {
		true => LenEnc::Sparse,
		false if sorted && t.chance(1, 2) => LenEnc::Ordered,
		false => LenEnc::Dense
	};
	let dims = *t.pick(&[1u16, 2]);
	let mut big = Book { sync: 0x564342, dims, lens, enc, lookup: 1, min: 0, delta: 0x60000001, value_bits: t.range(1, 16) as u8, seq: false, mults: vec![] };
	big.mults = (0..big.mult_count()).map(|_| r.below(1 << big.value_bits) as u32).collect();
	let class = Book { dims: 1, lens: vec![1, 1], enc: LenEnc::Dense, lookup: 0, mults: vec![], ..big.clone() };
	let id = Ident { version: 0, channels: t.range(1, 2) as u8, rate: 48000, br_max: 0, br_nom: 0, br_min: 0, bs0: t.range(6, 8) as u8, bs1: 13, framing: 1, trailing: vec![] };
	let psize = *t.pick(&[16u32, 64, 512, 4096]);
	let setup = Setup {
		books: vec![class, big],
		times: vec![0],
		floors: vec![Floor { typ: 1, mult: 4, range: 4, ..Default::default() }],
		residues: vec![Residue {
			typ: t.range(0, 2) as u16,
			begin: 0,
			end: 4096 * id.channels as u32,
			psize,
			classifications: 2,
			classbook: 0,
			books: vec![[Some(1), None, None, None, None, None, None, None], [None, Some(1), Some(1), None, None, None, None, None]],
			long_cascade: false
		}],
		mappings: vec![Mapping { mux: vec![0; id.channels as usize], subs: vec![(0, 0, 0)], ..Default::default() }],
		modes: vec![Mode { big: true, ..Default::default() }],
		framing: true,
		..Default::default()
	};
	let codes = Codes::new(&setup).unwrap();
	let mut audio = vec![];
	for _ in 0..t.range(2, 8) {
		let style = Style { kind: *t.pick(&[1, 1, 2, 3]), seed: t.seed(), energy: 8, mode: 0, max_bits: 1 << 24 };
		let bytes = audio::encode(&id, &setup, &codes, style);
		let dec = audio::decode(&id, &setup, &codes, &bytes);
		audio.push(AudioIn { bytes, dec });
	}
	let comments = Comments { framing: Some(1), ..Default::default() };
	let mut s = VStream {
		id_bytes: id.encode(),
		comment_bytes: comments.encode(),
		comments,
		setup_bytes: setup.encode(id.channels),
		id,
		setup,
		codes,
		audio,
		serial: 7,
		pages: vec![]
	};
	let p = Profile::default();
	let (offset, trim) = gen_offsets(t, &p, &s.audio);
	let lay = gen_layout(t, &p);
	layout_stream(t, &mut s, &lay, offset, trim);
	s
}

/// A stream of very long packets: up to a million residue partitions, and megabytes of codewords.
pub fn gen_long_packets(t: &mut Tape) -> VStream {
	let channels = match t.weighted(&[3, 2, 2]) {
		0 => 255,
		1 => t.range(100, 254),
		_ => t.range(15, 18)
	} as u8;
	let typ = *t.pick(&[2u16, 2, 1, 0]);
	let psize = *t.pick(&[1u32, 8, 15, 16, 4, 2, 3]);
	// Class book and the number of classifications
	let (dims, entries, classes) = *t.pick(&[(1u16, 2usize, 2u32), (2, 4, 2), (8, 256, 2), (100, 1, 1), (1000, 1, 1), (65_535, 1, 1), (1, 64, 64), (3, 27, 3)]);
	let mut r = Rng::new(t.seed());
	let book = |dims: u16, n: usize, lookup: u8| {
		let lens = match n {
			1 => vec![1],
			_ => {
				let w = crate::bits::ilog(n as u32 - 1) as u8;
				vec![w; n]
			}
		};
		let mut b = Book { sync: 0x564342, dims, lens, enc: LenEnc::Dense, lookup, min: 0, delta: 0x60000001, value_bits: 4, seq: false, mults: vec![] };
		if lookup > 0 {
			b.mults = (0..b.mult_count()).map(|i| (i % 16) as u32).collect();
		}
		b
	};
	let vdims = if psize % 2 == 0 { *t.pick(&[1u16, 2]) } else { 1 };
	let ventries = *t.pick(&[16usize, 2, 256]);
	let half = 4096u32;
	let whole = if typ == 2 { half * channels as u32 } else { half };
	let begin = if t.chance(3, 4) { 0 } else { t.edge(0, whole as u64) as u32 };
	let end = match t.weighted(&[3, 1, 1]) {
		0 => whole,
		1 => (1 << 24) - 1,
		_ => t.range(begin as u64, whole as u64) as u32
	};
	let mut books = vec![[None; 8]; classes as usize];
	// Millions of vectors are too slow in all passes
	let parts = whole / psize * if typ == 2 { 1 } else { channels as u32 };
	for b in books.iter_mut().skip(1) {
		if r.below(2) == 0 || parts < 200_000 {
			b[r.below(8) as usize] = Some(1);
		}
	}
	if classes == 1 && t.chance(1, 2) {
		books[0][t.below(8) as usize] = Some(1);
	}
	let setup = Setup {
		books: vec![book(dims, entries, 0), book(vdims, ventries, 1)],
		times: vec![0],
		floors: vec![Floor { typ: 1, mult: 4, range: 4, ..Default::default() }],
		residues: vec![Residue { typ, begin, end, psize, classifications: classes as u8, classbook: 0, books, long_cascade: false }],
		mappings: vec![Mapping { mux: vec![0; channels as usize], subs: vec![(0, 0, 0)], ..Default::default() }],
		modes: vec![Mode { big: true, ..Default::default() }, Mode { big: false, ..Default::default() }],
		framing: true,
		..Default::default()
	};
	let id = Ident { version: 0, channels, rate: 48000, br_max: 0, br_nom: 0, br_min: 0, bs0: t.range(6, 13) as u8, bs1: 13, framing: 1, trailing: vec![] };
	let codes = Codes::new(&setup).unwrap();
	let energy = *t.pick(&[8u8, 1, 4]);
	let mut audio = vec![];
	for i in 0..t.range(1, 3) {
		let style = Style { kind: *t.pick(&[1, 2, 3, 5, 0]), seed: t.seed(), energy, mode: (i == 1) as u32, max_bits: 1 << 27 };
		let bytes = audio::encode(&id, &setup, &codes, style);
		let dec = audio::decode(&id, &setup, &codes, &bytes);
		audio.push(AudioIn { bytes, dec });
	}
	let comments = Comments { framing: Some(1), ..Default::default() };
	let mut s = VStream {
		id_bytes: id.encode(),
		comment_bytes: comments.encode(),
		comments,
		setup_bytes: setup.encode(id.channels),
		id,
		setup,
		codes,
		audio,
		serial: 7,
		pages: vec![]
	};
	let p = Profile::default();
	let (offset, trim) = gen_offsets(t, &p, &s.audio);
	let lay = gen_layout(t, &p);
	layout_stream(t, &mut s, &lay, offset, trim);
	s
}

/// A file of very many chained Vorbis streams, which are repetitions of a few. Also returns which of
/// the few each of them is.
pub fn gen_many_streams(t: &mut Tape) -> (Vec<VStream>, Vec<usize>, Vec<Page>) {
	let p = Profile { max_packets: 2, max_bits: 60, layout: false, max_channels: 1, extreme: 0, ..Profile::small() };
	let few: Vec<VStream> = (0..t.range(1, 4)).map(|k| gen_stream(t, &p, k as u32)).collect();
	let n = match t.weighted(&[4, 2, 1]) {
		0 => t.range(255, 300),
		1 => t.range(300, 2000),
		// The Ogg reader takes time quadratic in this
		_ => t.range(2000, 5000)
	};
	let (first, step) = (t.below(1 << 32) as u32, 1 + 2 * t.below(1 << 31) as u32);
	let mut r = Rng::new(t.seed());
	let mut which = vec![];
	let mut pages = vec![];
	for i in 0..n as u32 {
		let k = r.below(few.len() as u64) as usize;
		which.push(k);
		pages.extend(few[k].pages.iter().map(|p| Page { serial: first.wrapping_add(step.wrapping_mul(i)), ..p.clone() }));
	}
	(few, which, pages)
}

/// Replaces granule positions that must not matter: those between the first and the last page
/// that end audio packets. With undecodable packets it is a matter of opinion which pages these
/// are, so then nothing changes.
pub fn wrong_gps(t: &mut Tape, s: &mut VStream) {
	if s.audio.iter().any(|a| a.dec.fate == Fate::Dropped) {
		return;
	}
	// The audio pages start after the page on which the third packet ends
	let mut ends = 0;
	let mut audio = vec![];
	for (i, p) in s.pages.iter().enumerate() {
		if ends >= 3 && p.ends_packet() {
			audio.push(i);
		}
		ends += p.packet_ends();
	}
	for k in audio.iter().skip(1).take(audio.len().saturating_sub(2)) {
		let p = &mut s.pages[*k];
		match t.below(5) {
			0 => (),
			1 => p.gp = 0,
			2 => p.gp = -1,
			3 => p.gp = p.gp.wrapping_add(t.range(0, 20_000) as i64 - 10_000),
			_ => p.gp = t.below(0) as i64
		}
	}
	if let (Some(l), true) = (audio.last(), audio.len() > 1) {
		let p = &mut s.pages[*l];
		match t.below(8) {
			0 => p.gp = 0,
			1 => p.gp = -1,
			2 => p.gp = t.below(0) as i64,
			_ => ()
		}
	}
}

pub fn layout_stream(t: &mut Tape, s: &mut VStream, lay: &Layout, offset: i64, trim: i64) {
	let gps = nominal_gps(&s.audio, offset, trim);
	let groups = vec![
		vec![(&s.id_bytes[..], 0)],
		vec![(&s.comment_bytes[..], 0), (&s.setup_bytes[..], 0)],
		s.audio.iter().zip(&gps).map(|(a, g)| (&a.bytes[..], *g)).collect()
	];
	s.pages = paginate(t, &groups, lay, s.serial);
}

/// A small but complete stream around given comment header bytes.
pub fn tiny_stream(t: &mut Tape, comment_bytes: Vec<u8>, serial: u32) -> VStream {
	let p = Profile { extreme: 0, max_packets: 4, max_channels: 2, max_bits: 200, early: false, dropped: false, padded: false, ..Profile::default() };
	let id = gen_ident(t, &p);
	let mut s = Setup { times: vec![0], framing: true, ..Default::default() };
	s.books.push(gen_book(t, &p, Some(2)));
	let live: Vec<u8> = (0..s.books.len()).filter(|b| s.books[*b].used() > 0).map(|b| b as u8).collect();
	s.floors.push(Floor { typ: 1, mult: 2, range: 4, ..Default::default() });
	s.residues.push(gen_residue(t, &id, &s.books, &live, &p));
	s.mappings.push(Mapping { mux: vec![0; id.channels as usize], subs: vec![(0, 0, 0)], ..Default::default() });
	s.modes.push(Mode { big: t.chance(1, 2), ..Default::default() });
	let codes = Codes::new(&s).unwrap();
	let audio = gen_audio(t, &id, &s, &codes, &p);
	let mut v = VStream {
		id_bytes: id.encode(),
		setup_bytes: s.encode(id.channels),
		id,
		comments: Comments::default(),
		comment_bytes,
		setup: s,
		codes,
		audio,
		serial,
		pages: vec![]
	};
	let lay = gen_layout(t, &p);
	layout_stream(t, &mut v, &lay, 0, 0);
	v
}

/// The first packet of a logical stream that is not Vorbis.
pub fn foreign_first(t: &mut Tape) -> Vec<u8> {
	let mut v: Vec<u8> = match t.below(12) {
		0 => b"OpusHead\x01\x01\x38\x01\x80\xbb\0\0\0\0\0".to_vec(),
		1 => b"\x80theora\x03\x02\x01".to_vec(),
		2 => b"fishead\0\x03\0\0\0".to_vec(),
		3 => b"\x7fFLAC\x01\0".to_vec(),
		4 => b"\x01vorbi".to_vec(),
		5 => b"\x01vorbiS and more than thirty bytes of data".to_vec(),
		6 => b"\x03vorbis\0\0\0\0\0\0\0\0\x01 and more than thirty bytes".to_vec(),
		7 => b"\x05vorbis and more than thirty bytes of data".to_vec(),
		8 => b"\x07vorbis\0\0\0\0\x02\x44\xac\0\0\0\0\0\0\0\0\0\0\0\0\0\0\xb8\x01".to_vec(),
		9 => b"\x01Vorbis\0\0\0\0\x02\x44\xac\0\0\0\0\0\0\0\0\0\0\0\0\0\0\xb8\x01".to_vec(),
		10 => vec![],
		_ => {
			let n = t.size(0, 600);
			t.bytes(n)
		}
	};
	if t.chance(1, 4) {
		let n = t.size(0, 40);
		v.extend(t.bytes(n));
	}
	if v.starts_with(b"\x01vorbis") {
		v[0] = 2;
	}
	v
}

pub fn gen_foreign(t: &mut Tape, serial: u32) -> Vec<Page> {
	let n = match t.weighted(&[3, 3, 1]) {
		0 => 0,
		1 => t.size(0, 5),
		_ => t.size(0, 30)
	};
	let mut packets = vec![foreign_first(t)];
	for _ in 0..n {
		let size = match t.weighted(&[4, 1]) {
			0 => t.size(0, 300),
			_ => t.size(0, 3000)
		};
		let mut d = t.bytes(size);
		if t.chance(1, 8) {
			// Looks like a Vorbis header, but is not the first packet
			let mut v = b"\x01vorbis\0\0\0\0\x02\x44\xac\0\0\0\0\0\0\0\0\0\0\0\0\0\0\xb8\x01".to_vec();
			v.append(&mut d);
			d = v;
		}
		packets.push(d);
	}
	let gps: Vec<i64> = packets.iter().map(|_| t.edge(0, 1 << 40) as i64).collect();
	let rest: Vec<(&[u8], i64)> = packets[1..].iter().zip(&gps[1..]).map(|(p, g)| (&p[..], *g)).collect();
	let groups = if t.chance(1, 2) || rest.is_empty() {
		vec![vec![(&packets[0][..], gps[0])], vec![], rest]
	} else {
		let mut all = vec![(&packets[0][..], gps[0])];
		all.extend(rest);
		vec![vec![], vec![], all]
	};
	let lay = Layout { targets: (1, *t.pick(&[255, 3, 20])), split: t.chance(1, 2), per_packet: t.chance(1, 3), nil_pages: t.chance(1, 4), headers_split: true };
	let mut pages = paginate(t, &groups, &lay, serial);
	if t.chance(1, 4) {
		pages.last_mut().unwrap().flags &= !EOS;
	}
	pages
}

/// Distinct serials.
pub fn gen_serials(t: &mut Tape, n: usize) -> Vec<u32> {
	let mut out: Vec<u32> = vec![];
	while out.len() < n {
		let mut s = match t.weighted(&[2, 1, 1, if out.is_empty() { 0 } else { 2 }]) {
			0 => t.below(8) as u32,
			1 => t.below(1 << 32) as u32,
			2 => u32::MAX - t.below(4) as u32,
			// Similar to another one
			_ => {
				let o = *t.pick(&out);
				match t.weighted(&[2, 1, 1, 1, 1]) {
					0 => o ^ (1 << t.below(32)),
					1 => o ^ ((t.below(1 << 16) as u32) << 16),
					2 => o.swap_bytes(),
					3 => !o,
					_ => o.wrapping_add(1)
				}
			}
		};
		while out.contains(&s) {
			s = s.wrapping_add(1);
		}
		out.push(s);
	}
	out
}

/// Merges the pages of a stream into a sequence of others, keeping the order of each.
pub fn interleave(t: &mut Tape, base: Vec<Page>, other: Vec<Page>) -> Vec<Page> {
	let n = base.len() as u64;
	let mut at: Vec<u64> = match t.weighted(&[3, 1, 1, 1]) {
		// Anywhere
		0 => other.iter().map(|_| t.range(0, n)).collect(),
		// Chained
		1 => {
			let k = *t.pick(&[0, n]);
			other.iter().map(|_| k).collect()
		}
		// The first page in front, the others anywhere
		2 => {
			let mut v: Vec<u64> = other.iter().map(|_| t.range(0, n)).collect();
			v[0] = 0;
			v
		}
		_ => {
			let k = t.range(0, n);
			other.iter().map(|_| k).collect()
		}
	};
	at.sort();
	let mut out = Vec::with_capacity(base.len() + other.len());
	let mut o = other.into_iter().zip(at).peekable();
	for (i, p) in base.into_iter().enumerate() {
		while o.peek().is_some_and(|(_, a)| *a <= i as u64) {
			out.push(o.next().unwrap().0);
		}
		out.push(p);
	}
	out.extend(o.map(|x| x.0));
	out
}

pub struct VFile {
	pub streams: Vec<VStream>,
	pub foreign: usize,
	pub pages: Vec<Page>
}

/// A file of chained Vorbis streams, with foreign streams chained or multiplexed anywhere.
pub fn gen_file(t: &mut Tape, p: &Profile, streams: usize, foreign: usize) -> VFile {
	let serials = gen_serials(t, streams + foreign);
	let mut v = vec![];
	let mut pages = vec![];
	for s in &serials[..streams] {
		let s = gen_stream(t, p, *s);
		pages.extend(s.pages.iter().cloned());
		v.push(s);
	}
	for s in &serials[streams..] {
		let f = gen_foreign(t, *s);
		pages = interleave(t, pages, f);
	}
	VFile { streams: v, foreign, pages }
}
