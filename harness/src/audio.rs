//! Reference walk over an audio packet (Vorbis I § 4.3), used both to encode packets from chosen
//! symbols and to decode packets into symbols.

use crate::bits::{ilog, BitR, BitW};
use crate::engine::Rng;
use crate::huff::{self, Tree, Walk};
use crate::vorbis::{Ident, Setup};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
	Bits(u8, u32),
	Entry(u8, u32)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum What {
	Mode,
	Window,
	Energy,
	FloorY,
	Plain
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
	Eop,
	Invalid(String),
	/// Only when encoding: a symbol is needed from a book without any
	Dead
}

pub trait Symbols {
	fn bits(&mut self, width: u8, what: What) -> Result<u32, Stop>;
	fn entry(&mut self, book: u8) -> Result<u32, Stop>;
}

/// Codewords of every book of a setup.
pub struct Codes {
	pub codes: Vec<Vec<Option<u32>>>,
	pub trees: Vec<Tree>,
	/// Used entries per book
	pub used: Vec<Vec<u32>>
}

impl Codes {
	pub fn new(s: &Setup) -> Option<Codes> {
		let mut c = Codes { codes: vec![], trees: vec![], used: vec![] };
		for b in &s.books {
			let codes = huff::assign(&b.lens)?;
			c.trees.push(Tree::new(&b.lens, &codes));
			c.used.push((0..b.lens.len() as u32).filter(|e| b.lens[*e as usize] > 0).collect());
			c.codes.push(codes);
		}
		Some(c)
	}
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Info {
	pub mode: Option<u32>,
	pub blocksize: Option<u32>,
	/// Floors fully decoded
	pub floors_done: bool,
	/// Channels with floor energy (before coupling propagation)
	pub energy: Vec<bool>
}

/// Walks a packet after its type bit. `info` is filled as far as the walk gets.
pub fn walk<S: Symbols>(id: &Ident, s: &Setup, io: &mut S, info: &mut Info) -> Result<(), Stop> {
	let inv = |m: &str| Stop::Invalid(m.to_string());
	let mode = io.bits(ilog(s.modes.len() as u32 - 1) as u8, What::Mode)?;
	let m = s.modes.get(mode as usize).ok_or_else(|| inv("audio-mode"))?;
	info.mode = Some(mode);
	if m.big {
		io.bits(1, What::Window)?;
		io.bits(1, What::Window)?;
	}
	let n = id.blocksize(m.big);
	info.blocksize = Some(n);
	let map = &s.mappings[m.mapping as usize];
	let mut silent = vec![];
	for ch in 0..id.channels as usize {
		let floor = &s.floors[map.subs[map.mux[ch] as usize].1 as usize];
		let energy = io.bits(1, What::Energy)? != 0;
		info.energy.push(energy);
		silent.push(!energy);
		if !energy {
			continue;
		}
		let yrange: u32 = [256, 128, 86, 64][floor.mult as usize - 1];
		for _ in 0..2 {
			io.bits(ilog(yrange - 1) as u8, What::FloorY)?;
		}
		for p in &floor.parts {
			let c = &floor.classes[*p as usize];
			let mut cval = if c.sub > 0 { io.entry(c.master.unwrap())? } else { 0 };
			for _ in 0..c.dim {
				let book = c.books[(cval & ((1 << c.sub) - 1)) as usize];
				cval >>= c.sub;
				if let Some(b) = book {
					io.entry(b)?;
				}
			}
		}
	}
	info.floors_done = true;
	for (a, b) in &map.coupling {
		if !silent[*a as usize] || !silent[*b as usize] {
			silent[*a as usize] = false;
			silent[*b as usize] = false;
		}
	}
	for (i, sub) in map.subs.iter().enumerate() {
		let r = &s.residues[sub.2 as usize];
		let mut todo: Vec<bool> = (0..id.channels as usize).filter(|c| map.mux[*c] as usize == i).map(|c| !silent[c]).collect();
		if todo.iter().all(|t| !*t) {
			continue;
		}
		let mut size = n as u64 / 2;
		if r.typ == 2 {
			size *= todo.len() as u64;
			todo = vec![true];
		}
		let begin = (r.begin as u64).min(size);
		let end = (r.end.max(r.begin) as u64).min(size);
		let parts = ((end - begin) / r.psize as u64) as usize;
		if end == begin {
			continue;
		}
		let cb = &s.books[r.classbook as usize];
		let cdims = cb.dims as usize;
		let mut class = vec![vec![0u32; parts + cdims]; todo.len()];
		for pass in 0..8 {
			let mut p = 0;
			while p < parts {
				if pass == 0 {
					for (j, t) in todo.iter().enumerate() {
						if *t {
							let mut v = io.entry(r.classbook)?;
							for k in (0..cdims).rev() {
								class[j][p + k] = v % r.classifications as u32;
								v /= r.classifications as u32;
							}
						}
					}
				}
				for _ in 0..cdims {
					if p >= parts {
						break;
					}
					for (j, t) in todo.iter().enumerate() {
						if !*t {
							continue;
						}
						if let Some(b) = r.books[class[j][p] as usize][pass] {
							let book = &s.books[b as usize];
							if book.lookup == 0 {
								return Err(inv("audio-scalar-as-vector"));
							}
							if book.dims == 0 || r.psize % book.dims as u32 != 0 {
								return Err(inv("audio-dimension"));
							}
							for _ in 0..r.psize / book.dims as u32 {
								io.entry(b)?;
							}
						}
					}
					p += 1;
				}
				if cdims == 0 {
					return Err(inv("audio-classbook-no-dimensions"));
				}
			}
		}
	}
	Ok(())
}

pub struct Decoder<'a> {
	pub r: BitR<'a>,
	pub codes: &'a Codes,
	pub evs: Vec<Ev>,
	/// Bit position after each event
	pub ends: Vec<u32>
}

impl Symbols for Decoder<'_> {
	fn bits(&mut self, width: u8, _: What) -> Result<u32, Stop> {
		let v = self.r.get(width as u32).ok_or(Stop::Eop)?;
		self.evs.push(Ev::Bits(width, v));
		self.ends.push(self.r.pos as u32);
		Ok(v)
	}
	fn entry(&mut self, book: u8) -> Result<u32, Stop> {
		match self.codes.trees[book as usize].read(&mut self.r) {
			Walk::Entry(e) => {
				self.evs.push(Ev::Entry(book, e));
				self.ends.push(self.r.pos as u32);
				Ok(e)
			}
			Walk::Eop => Err(Stop::Eop),
			Walk::Unassigned if self.codes.used[book as usize].len() == 1 => {
				Err(Stop::Invalid("audio-unassigned-codeword of a single-entry codebook".into()))
			}
			Walk::Unassigned => Err(Stop::Invalid("audio-unassigned-codeword".into()))
		}
	}
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fate {
	/// Mode and window information could not be read
	Dropped,
	/// Fully decoded
	Full,
	/// Legally ended early
	Early,
	Invalid(String)
}

#[derive(Clone, Debug)]
pub struct Packet {
	pub fate: Fate,
	pub info: Info,
	pub evs: Vec<Ev>,
	pub ends: Vec<u32>,
	/// Bits consumed by complete events (including the type bit)
	pub bits: usize
}

/// Reference decode of an audio packet.
pub fn decode(id: &Ident, s: &Setup, codes: &Codes, p: &[u8]) -> Packet {
	let mut d = Decoder { r: BitR::new(p), codes, evs: vec![], ends: vec![] };
	let mut info = Info::default();
	let mut out = Packet { fate: Fate::Dropped, info: info.clone(), evs: vec![], ends: vec![], bits: 0 };
	match d.r.bit() {
		None => return out,
		Some(true) => {
			out.fate = Fate::Invalid("audio-type".into());
			return out;
		}
		_ => ()
	}
	let res = walk(id, s, &mut d, &mut info);
	out.fate = match res {
		Ok(()) => Fate::Full,
		Err(Stop::Eop) if info.blocksize.is_none() => Fate::Dropped,
		Err(Stop::Eop) => Fate::Early,
		Err(Stop::Invalid(m)) => Fate::Invalid(m),
		Err(Stop::Dead) => unreachable!()
	};
	out.bits = d.ends.last().map_or(1, |e| *e as usize);
	out.info = info;
	out.evs = d.evs;
	out.ends = d.ends;
	out
}

/// How the content of an encoded packet is chosen.
#[derive(Clone, Copy, Debug)]
pub struct Style {
	/// 0: always the first used entry; 1: uniform; 2: skewed to low entries; 3: skewed to high
	/// entries; 4: few distinct entries; 5: extremely skewed
	pub kind: u8,
	pub seed: u64,
	/// Chance of floor energy per channel, in 1/8
	pub energy: u8,
	pub mode: u32,
	pub max_bits: usize
}

pub struct Encoder<'a> {
	pub w: BitW,
	pub codes: &'a Codes,
	pub setup: &'a Setup,
	pub style: Style,
	pub rng: Rng,
	pub silence: bool
}

pub fn choose(kind: u8, rng: &mut Rng, n: u64) -> u64 {
	match kind {
		0 => 0,
		1 => rng.below(n),
		2 => {
			let a = rng.below(n + 1);
			let b = rng.below(n + 1);
			((a * b) / (n + 1)).min(n - 1)
		}
		3 => {
			let a = rng.below(n);
			a.max(rng.below(n)).max(rng.below(n))
		}
		4 => rng.below(n.min(3)) * (n / n.min(3)),
		_ => (rng.next().trailing_zeros() as u64).min(n - 1)
	}
}

impl Symbols for Encoder<'_> {
	fn bits(&mut self, width: u8, what: What) -> Result<u32, Stop> {
		let v = match what {
			What::Mode => self.style.mode,
			What::Window => {
				if self.style.kind == 0 {
					0
				} else {
					self.rng.below(2) as u32
				}
			}
			What::Energy => (!self.silence && self.rng.below(8) < self.style.energy as u64) as u32,
			_ => {
				if self.style.kind == 0 {
					0
				} else {
					self.rng.below(1 << width) as u32
				}
			}
		};
		self.w.put(v as u64, width as u32);
		Ok(v)
	}
	fn entry(&mut self, book: u8) -> Result<u32, Stop> {
		if self.w.nbits > self.style.max_bits {
			return Err(Stop::Eop);
		}
		let used = &self.codes.used[book as usize];
		if used.is_empty() {
			return Err(Stop::Dead);
		}
		let e = used[choose(self.style.kind, &mut self.rng, used.len() as u64) as usize];
		let c = self.codes.codes[book as usize][e as usize].unwrap();
		self.w.code(c, self.setup.books[book as usize].lens[e as usize]);
		Ok(e)
	}
}

/// Encodes a packet with content chosen by the style.
pub fn encode(id: &Ident, s: &Setup, codes: &Codes, style: Style) -> Vec<u8> {
	for silence in [false, true] {
		let mut e = Encoder { w: BitW::default(), codes, setup: s, style, rng: Rng::new(style.seed), silence };
		e.w.flag(false);
		match walk(id, s, &mut e, &mut Info::default()) {
			Ok(()) | Err(Stop::Eop) => return e.w.buf,
			Err(Stop::Dead) => (),
			Err(Stop::Invalid(_)) => ()
		}
	}
	unreachable!("a silent packet can always be encoded")
}
