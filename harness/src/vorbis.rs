//! Model of the Vorbis I header packets: encoder and independent reference parser.

use crate::bits::{ilog, lookup1_values, BitR, BitW};
use crate::huff;

#[derive(Clone, Debug, PartialEq)]
pub struct Ident {
	pub version: u32,
	pub channels: u8,
	pub rate: u32,
	pub br_max: i32,
	pub br_nom: i32,
	pub br_min: i32,
	pub bs0: u8,
	pub bs1: u8,
	pub framing: u8,
	pub trailing: Vec<u8>
}

impl Ident {
	pub fn encode(&self) -> Vec<u8> {
		let mut o = b"\x01vorbis".to_vec();
		o.extend(self.version.to_le_bytes());
		o.push(self.channels);
		o.extend(self.rate.to_le_bytes());
		o.extend(self.br_max.to_le_bytes());
		o.extend(self.br_nom.to_le_bytes());
		o.extend(self.br_min.to_le_bytes());
		o.push(self.bs0 | self.bs1 << 4);
		o.push(self.framing);
		o.extend(&self.trailing);
		o
	}
	/// Structural parse; no validity rules.
	pub fn parse(p: &[u8]) -> Option<Ident> {
		if p.len() < 30 || &p[..7] != b"\x01vorbis" {
			return None;
		}
		let u = |i: usize| u32::from_le_bytes(p[i..i + 4].try_into().unwrap());
		Some(Ident {
			version: u(7),
			channels: p[11],
			rate: u(12),
			br_max: u(16) as i32,
			br_nom: u(20) as i32,
			br_min: u(24) as i32,
			bs0: p[28] & 15,
			bs1: p[28] >> 4,
			framing: p[29],
			trailing: p[30..].to_vec()
		})
	}
	pub fn invalid(&self) -> Option<&'static str> {
		if self.version != 0 {
			Some("ident-version")
		} else if self.channels == 0 {
			Some("ident-channels")
		} else if self.rate == 0 {
			Some("ident-rate")
		} else if !(6..=13).contains(&self.bs0) || !(6..=13).contains(&self.bs1) || self.bs0 > self.bs1 {
			Some("ident-blocksizes")
		} else {
			None
		}
	}
	pub fn blocksize(&self, big: bool) -> u32 {
		1 << if big { self.bs1 } else { self.bs0 }
	}
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Comments {
	pub vendor: Vec<u8>,
	pub comments: Vec<Vec<u8>>,
	pub framing: Option<u8>,
	pub trailing: Vec<u8>
}

impl Comments {
	pub fn encode(&self) -> Vec<u8> {
		let mut o = b"\x03vorbis".to_vec();
		o.extend((self.vendor.len() as u32).to_le_bytes());
		o.extend(&self.vendor);
		o.extend((self.comments.len() as u32).to_le_bytes());
		for c in &self.comments {
			o.extend((c.len() as u32).to_le_bytes());
			o.extend(c);
		}
		if let Some(f) = self.framing {
			o.push(f);
		}
		o.extend(&self.trailing);
		o
	}
	/// Reference parse of a comment header cut at any point: (vendor if complete, complete
	/// comments, whether everything including the framing byte was there).
	pub fn parse_lenient(p: &[u8]) -> (Option<Vec<u8>>, Vec<Vec<u8>>, bool) {
		let d = p.get(7..).unwrap_or(&[]);
		let mut at = 0usize;
		let mut take = |n: usize| -> Option<&[u8]> {
			if d.len() - at < n {
				return None;
			}
			at += n;
			Some(&d[at - n..at])
		};
		let le = |b: &[u8]| u32::from_le_bytes(b.try_into().unwrap());
		let mut comments = vec![];
		let Some(n) = take(4).map(le) else { return (None, comments, false) };
		let Some(vendor) = take(n as usize).map(|v| v.to_vec()) else { return (None, comments, false) };
		let Some(count) = take(4).map(le) else { return (Some(vendor), comments, false) };
		for _ in 0..count {
			let Some(n) = take(4).map(le) else { return (Some(vendor), comments, false) };
			let Some(c) = take(n as usize) else { return (Some(vendor), comments, false) };
			comments.push(c.to_vec());
		}
		let f = take(1).is_some();
		(Some(vendor), comments, f)
	}
	/// Strict parse of a conforming comment header.
	pub fn parse_strict(p: &[u8]) -> Result<Comments, String> {
		if p.len() < 7 || &p[..7] != b"\x03vorbis" {
			return Err("comment header signature".into());
		}
		let (v, c, f) = Comments::parse_lenient(p);
		if !f {
			return Err("comment header incomplete".into());
		}
		let r = Comments { vendor: v.unwrap(), comments: c, framing: Some(1), trailing: vec![] };
		if r.encode() != p {
			return Err("comment header framing byte or trailing data".into());
		}
		Ok(r)
	}
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LenEnc {
	Dense,
	Sparse,
	Ordered
}

#[derive(Clone, Debug, PartialEq)]
pub struct Book {
	pub sync: u32,
	pub dims: u16,
	pub lens: Vec<u8>,
	pub enc: LenEnc,
	pub lookup: u8,
	pub min: u32,
	pub delta: u32,
	pub value_bits: u8,
	pub seq: bool,
	pub mults: Vec<u32>
}

impl Book {
	pub fn used(&self) -> usize {
		self.lens.iter().filter(|l| **l > 0).count()
	}
	pub fn mult_count(&self) -> u64 {
		match self.lookup {
			0 => 0,
			1 => {
				if self.dims == 0 {
					u32::MAX as u64
				} else {
					lookup1_values(self.lens.len() as u32, self.dims) as u64
				}
			}
			_ => self.lens.len() as u64 * self.dims as u64
		}
	}
	pub fn encode(&self, w: &mut BitW) {
		w.put(self.sync as u64, 24);
		w.put(self.dims as u64, 16);
		w.put(self.lens.len() as u64, 24);
		let n = self.lens.len();
		match self.enc {
			LenEnc::Ordered => {
				w.flag(true);
				// Lengths are non-decreasing and non-zero
				let mut cur = self.lens.first().copied().unwrap_or(1);
				w.put(cur as u64 - 1, 5);
				let mut i = 0;
				while i < n {
					let run = self.lens[i..].iter().take_while(|l| **l == cur).count();
					w.put(run as u64, ilog((n - i) as u32));
					i += run;
					cur += 1;
				}
			}
			LenEnc::Sparse => {
				w.flag(false);
				w.flag(true);
				for l in &self.lens {
					w.flag(*l > 0);
					if *l > 0 {
						w.put(*l as u64 - 1, 5);
					}
				}
			}
			LenEnc::Dense => {
				w.flag(false);
				w.flag(false);
				for l in &self.lens {
					w.put((*l as u64).wrapping_sub(1) & 31, 5);
				}
			}
		}
		w.put(self.lookup as u64, 4);
		if self.lookup != 0 {
			w.put(self.min as u64, 32);
			w.put(self.delta as u64, 32);
			w.put(self.value_bits as u64 - 1, 4);
			w.flag(self.seq);
			for m in &self.mults {
				w.put(*m as u64, self.value_bits as u32);
			}
		}
	}
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct FClass {
	pub dim: u8,
	pub sub: u8,
	pub master: Option<u8>,
	pub books: Vec<Option<u8>>
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Floor {
	pub typ: u16,
	pub parts: Vec<u8>,
	pub classes: Vec<FClass>,
	pub mult: u8,
	pub range: u8,
	pub xs: Vec<u32>
}

impl Floor {
	pub fn class_count(parts: &[u8]) -> usize {
		parts.iter().map(|p| *p as usize + 1).max().unwrap_or(0)
	}
	fn encode(&self, w: &mut BitW) {
		w.put(self.typ as u64, 16);
		if self.typ == 0 {
			// Floor type 0 with minimal content
			w.put(8, 8);
			w.put(44100, 16);
			w.put(64, 16);
			w.put(6, 6);
			w.put(100, 8);
			w.put(0, 4);
			w.put(0, 8);
			return;
		}
		w.put(self.parts.len() as u64, 5);
		for p in &self.parts {
			w.put(*p as u64, 4);
		}
		for c in &self.classes {
			w.put(c.dim as u64 - 1, 3);
			w.put(c.sub as u64, 2);
			if c.sub > 0 {
				w.put(c.master.unwrap() as u64, 8);
			}
			for b in &c.books {
				w.put(b.map_or(0, |b| b as u64 + 1), 8);
			}
		}
		w.put(self.mult as u64 - 1, 2);
		w.put(self.range as u64, 4);
		for x in &self.xs {
			w.put(*x as u64, self.range as u32);
		}
	}
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Residue {
	pub typ: u16,
	pub begin: u32,
	pub end: u32,
	pub psize: u32,
	pub classifications: u8,
	pub classbook: u8,
	pub books: Vec<[Option<u8>; 8]>,
	/// Writes the upper cascade bits even if they are zero.
	pub long_cascade: bool
}

impl Residue {
	fn encode(&self, w: &mut BitW) {
		w.put(self.typ as u64, 16);
		w.put(self.begin as u64, 24);
		w.put(self.end as u64, 24);
		w.put(self.psize as u64 - 1, 24);
		w.put(self.classifications as u64 - 1, 6);
		w.put(self.classbook as u64, 8);
		for b in &self.books {
			let mask: u64 = (0..8).map(|i| (b[i].is_some() as u64) << i).sum();
			w.put(mask & 7, 3);
			let high = mask >> 3 != 0 || self.long_cascade;
			w.flag(high);
			if high {
				w.put(mask >> 3, 5);
			}
		}
		for b in self.books.iter().flatten().flatten() {
			w.put(*b as u64, 8);
		}
	}
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Mapping {
	pub typ: u16,
	pub coupling: Vec<(u8, u8)>,
	pub mux: Vec<u8>,
	/// (time configuration placeholder, floor, residue)
	pub subs: Vec<(u8, u8, u8)>,
	pub reserved: u8,
	/// Writes the submap count even if it is one.
	pub long_submaps: bool
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Mode {
	pub big: bool,
	pub window: u16,
	pub transform: u16,
	pub mapping: u8
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Setup {
	pub books: Vec<Book>,
	pub times: Vec<u16>,
	pub floors: Vec<Floor>,
	pub residues: Vec<Residue>,
	pub mappings: Vec<Mapping>,
	pub modes: Vec<Mode>,
	pub framing: bool,
	pub trailing: Vec<u8>
}

impl Setup {
	/// Position and width of every field of the encoded header.
	pub fn fields(&self, channels: u8) -> Vec<(usize, u32)> {
		let mut w = BitW { trace: Some(vec![]), ..Default::default() };
		self.encode_into(channels, &mut w);
		w.trace.unwrap()
	}
	pub fn encode_bits(&self, channels: u8) -> BitW {
		let mut w = BitW::default();
		self.encode_into(channels, &mut w);
		w
	}
	fn encode_into(&self, channels: u8, w: &mut BitW) {
		for b in b"\x05vorbis" {
			w.put(*b as u64, 8);
		}
		w.put(self.books.len() as u64 - 1, 8);
		for b in &self.books {
			b.encode(w);
		}
		self.encode_after_books(channels, w);
	}
	pub fn encode_after_books(&self, channels: u8, w: &mut BitW) {
		w.put(self.times.len() as u64 - 1, 6);
		for t in &self.times {
			w.put(*t as u64, 16);
		}
		w.put(self.floors.len() as u64 - 1, 6);
		for f in &self.floors {
			f.encode(w);
		}
		w.put(self.residues.len() as u64 - 1, 6);
		for r in &self.residues {
			r.encode(w);
		}
		w.put(self.mappings.len() as u64 - 1, 6);
		for m in &self.mappings {
			w.put(m.typ as u64, 16);
			let subs = m.subs.len() > 1 || m.long_submaps;
			w.flag(subs);
			if subs {
				w.put(m.subs.len() as u64 - 1, 4);
			}
			w.flag(!m.coupling.is_empty());
			if !m.coupling.is_empty() {
				w.put(m.coupling.len() as u64 - 1, 8);
				let width = ilog(channels as u32 - 1);
				for (a, b) in &m.coupling {
					w.put(*a as u64, width);
					w.put(*b as u64, width);
				}
			}
			w.put(m.reserved as u64, 2);
			if m.subs.len() > 1 {
				for x in &m.mux {
					w.put(*x as u64, 4);
				}
			}
			for (t, f, r) in &m.subs {
				w.put(*t as u64, 8);
				w.put(*f as u64, 8);
				w.put(*r as u64, 8);
			}
		}
		w.put(self.modes.len() as u64 - 1, 6);
		for m in &self.modes {
			w.flag(m.big);
			w.put(m.window as u64, 16);
			w.put(m.transform as u64, 16);
			w.put(m.mapping as u64, 8);
		}
		w.flag(self.framing);
	}
	pub fn encode(&self, channels: u8) -> Vec<u8> {
		let mut b = self.encode_bits(channels).buf;
		b.extend(&self.trailing);
		b
	}

	/// The setup without anything that may legitimately differ between input and output.
	pub fn semantic(&self) -> Setup {
		let mut s = self.clone();
		for b in &mut s.books {
			b.sync = 0x564342;
			b.enc = LenEnc::Sparse;
			b.lens.fill(0);
		}
		s.times = vec![0];
		for r in &mut s.residues {
			r.long_cascade = false;
			r.end = r.end.max(r.begin);
		}
		for m in &mut s.mappings {
			m.reserved = 0;
			m.long_submaps = false;
			for x in &mut m.subs {
				x.0 = 0;
			}
		}
		for m in &mut s.modes {
			m.window = 0;
			m.transform = 0;
		}
		s.framing = true;
		s.trailing = vec![];
		s
	}
}

pub struct Parsed {
	pub setup: Setup,
	/// Deviations from strict conformance that a decoder may tolerate.
	pub lenient: Vec<String>,
	/// Number of bits of content, including the framing bit.
	pub bits: usize,
	/// Byte length of the packet that was parsed.
	pub len: usize
}

/// Reference parser of the setup header. `Err` names the violated rule.
pub fn parse_setup(p: &[u8], channels: u8) -> Result<Parsed, String> {
	macro_rules! get {
		($r:expr, $w:expr) => {
			match $r.get($w as u32) {
				Some(v) => v,
				None => return Err("setup-truncated".to_string())
			}
		};
	}
	macro_rules! bad {
		($($x:tt)*) => { return Err(format!($($x)*)) };
	}
	let mut lenient: Vec<String> = vec![];
	if p.len() < 7 {
		bad!("setup-too-small");
	}
	if &p[..7] != b"\x05vorbis" {
		bad!("setup-signature");
	}
	let mut r = BitR::new(p);
	r.pos = 56;
	let mut s = Setup::default();
	let nbooks = get!(r, 8) as usize + 1;
	for i in 0..nbooks {
		let sync = get!(r, 24);
		if sync != 0x564342 {
			lenient.push("book-sync".into());
		}
		let dims = get!(r, 16) as u16;
		let n = get!(r, 24) as usize;
		let mut lens;
		let enc;
		if get!(r, 1) != 0 {
			enc = LenEnc::Ordered;
			lens = vec![0u8; n];
			let mut cur = get!(r, 5) + 1;
			let mut at = 0;
			while at < n {
				if cur > 32 {
					bad!("book-length-too-big");
				}
				let run = get!(r, ilog((n - at) as u32)) as usize;
				if at + run > n {
					bad!("book-ordered-overflow");
				}
				lens[at..at + run].fill(cur as u8);
				at += run;
				cur += 1;
			}
		} else if get!(r, 1) != 0 {
			enc = LenEnc::Sparse;
			if r.left() < n {
				bad!("setup-truncated");
			}
			lens = vec![0u8; n];
			for l in lens.iter_mut() {
				if get!(r, 1) != 0 {
					*l = get!(r, 5) as u8 + 1;
				}
			}
		} else {
			enc = LenEnc::Dense;
			if r.left() < n * 5 {
				bad!("setup-truncated");
			}
			lens = vec![0u8; n];
			for l in lens.iter_mut() {
				*l = get!(r, 5) as u8 + 1;
			}
		}
		let lookup = get!(r, 4) as u8;
		if lookup > 2 {
			bad!("book-lookup-reserved");
		}
		let mut b = Book {
			sync,
			dims,
			lens,
			enc,
			lookup,
			min: 0,
			delta: 0,
			value_bits: 0,
			seq: false,
			mults: vec![]
		};
		if lookup > 0 {
			b.min = get!(r, 32);
			b.delta = get!(r, 32);
			b.value_bits = get!(r, 4) as u8 + 1;
			b.seq = get!(r, 1) != 0;
			let count = b.mult_count();
			if (r.left() as u64) < count * b.value_bits as u64 {
				bad!("setup-truncated");
			}
			for _ in 0..count {
				b.mults.push(get!(r, b.value_bits));
			}
		}
		let k = huff::kraft(&b.lens);
		if huff::assign(&b.lens).is_none() {
			bad!("book-overspecified");
		}
		if k != 1 << 32 && k != 0 && !(b.used() == 1 && b.lens.iter().all(|l| *l <= 1)) {
			lenient.push(format!("book-underspecified {i}"));
		}
		s.books.push(b);
	}
	let ntimes = get!(r, 6) + 1;
	for _ in 0..ntimes {
		let t = get!(r, 16) as u16;
		if t != 0 {
			lenient.push("time-transform".into());
		}
		s.times.push(t);
	}
	if ntimes != 1 {
		lenient.push("time-transform-count".into());
	}
	let nfloors = get!(r, 6) + 1;
	for _ in 0..nfloors {
		let typ = get!(r, 16) as u16;
		if typ != 1 {
			bad!("floor-type");
		}
		let mut f = Floor { typ, ..Default::default() };
		let np = get!(r, 5);
		for _ in 0..np {
			f.parts.push(get!(r, 4) as u8);
		}
		for _ in 0..Floor::class_count(&f.parts) {
			let mut c = FClass { dim: get!(r, 3) as u8 + 1, sub: get!(r, 2) as u8, ..Default::default() };
			if c.sub > 0 {
				let m = get!(r, 8);
				if m as usize >= nbooks {
					bad!("floor-masterbook");
				}
				c.master = Some(m as u8);
			}
			for _ in 0..1 << c.sub {
				let b = get!(r, 8);
				if b as usize > nbooks {
					bad!("floor-subbook");
				}
				c.books.push(if b == 0 { None } else { Some((b - 1) as u8) });
			}
			f.classes.push(c);
		}
		f.mult = get!(r, 2) as u8 + 1;
		f.range = get!(r, 4) as u8;
		for p in &f.parts {
			for _ in 0..f.classes[*p as usize].dim {
				f.xs.push(get!(r, f.range));
			}
		}
		let mut sorted = f.xs.clone();
		sorted.sort();
		if sorted.windows(2).any(|w| w[0] == w[1]) {
			bad!("floor-repeated-point");
		}
		if f.xs.len() > 65 {
			bad!("floor-too-many-points");
		}
		if f.xs.len() > 63 {
			lenient.push("floor-64-65-points".into());
		}
		if sorted.first() == Some(&0) {
			lenient.push("floor-point-zero".into());
		}
		s.floors.push(f);
	}
	let nres = get!(r, 6) + 1;
	for _ in 0..nres {
		let typ = get!(r, 16) as u16;
		if typ > 2 {
			bad!("residue-type");
		}
		let begin = get!(r, 24);
		let end = get!(r, 24);
		if end < begin {
			lenient.push("residue-end".into());
		}
		let psize = get!(r, 24) + 1;
		let classifications = get!(r, 6) as u8 + 1;
		let classbook = get!(r, 8) as u8;
		let Some(cb) = s.books.get(classbook as usize) else { bad!("residue-classbook") };
		let mut need = 1u64;
		for _ in 0..cb.dims {
			need = need.saturating_mul(classifications as u64);
			if need > cb.lens.len() as u64 {
				bad!("residue-classbook-small");
			}
			if classifications == 1 {
				break;
			}
		}
		if need > cb.lens.len() as u64 {
			bad!("residue-classbook-small");
		}
		let mut masks = vec![];
		for _ in 0..classifications {
			let mut m = get!(r, 3);
			if get!(r, 1) != 0 {
				m |= get!(r, 5) << 3;
			}
			masks.push(m);
		}
		let mut books = vec![];
		for m in &masks {
			let mut b = [None; 8];
			for (j, x) in b.iter_mut().enumerate() {
				if m >> j & 1 != 0 {
					let n = get!(r, 8);
					if n as usize >= nbooks {
						bad!("residue-book");
					}
					*x = Some(n as u8);
				}
			}
			books.push(b);
		}
		s.residues.push(Residue { typ, begin, end, psize, classifications, classbook, books, long_cascade: false });
	}
	let nmaps = get!(r, 6) + 1;
	for _ in 0..nmaps {
		let typ = get!(r, 16) as u16;
		if typ != 0 {
			bad!("mapping-type");
		}
		let mut m = Mapping { typ, ..Default::default() };
		let nsub = if get!(r, 1) != 0 { get!(r, 4) + 1 } else { 1 };
		if get!(r, 1) != 0 {
			let steps = get!(r, 8) + 1;
			let width = ilog(channels as u32 - 1);
			for _ in 0..steps {
				let a = get!(r, width);
				let b = get!(r, width);
				if a == b || a >= channels as u32 || b >= channels as u32 {
					bad!("mapping-coupling");
				}
				m.coupling.push((a as u8, b as u8));
			}
		}
		m.reserved = get!(r, 2) as u8;
		if m.reserved != 0 {
			lenient.push("mapping-reserved".into());
		}
		if nsub > 1 {
			for _ in 0..channels {
				let x = get!(r, 4);
				if x >= nsub {
					bad!("mapping-mux");
				}
				m.mux.push(x as u8);
			}
		} else {
			m.mux = vec![0; channels as usize];
		}
		for _ in 0..nsub {
			let t = get!(r, 8);
			let f = get!(r, 8);
			if f >= nfloors {
				bad!("mapping-floor");
			}
			let x = get!(r, 8);
			if x >= nres {
				bad!("mapping-residue");
			}
			m.subs.push((t as u8, f as u8, x as u8));
		}
		s.mappings.push(m);
	}
	let nmodes = get!(r, 6) + 1;
	for _ in 0..nmodes {
		let big = get!(r, 1) != 0;
		let window = get!(r, 16) as u16;
		let transform = get!(r, 16) as u16;
		let mapping = get!(r, 8) as u8;
		if window != 0 {
			lenient.push("mode-window".into());
		}
		if transform != 0 {
			lenient.push("mode-transform".into());
		}
		if mapping as u32 >= nmaps {
			bad!("mode-mapping");
		}
		s.modes.push(Mode { big, window, transform, mapping });
	}
	match r.bit() {
		Some(true) => s.framing = true,
		_ => lenient.push("setup-framing".into())
	}
	let bits = r.pos;
	if bits.div_ceil(8) != p.len() {
		lenient.push("setup-trailing".into());
		s.trailing = p[bits.div_ceil(8)..].to_vec();
	} else if bits % 8 != 0 && p[p.len() - 1] >> (bits % 8) != 0 {
		lenient.push("setup-nonzero-padding".into());
	}
	Ok(Parsed { setup: s, lenient, bits, len: p.len() })
}
