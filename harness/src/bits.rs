//! Reference implementation of the Vorbis bitpacking convention, one bit at a time.

#[derive(Default, Clone)]
pub struct BitW {
	pub buf: Vec<u8>,
	pub nbits: usize,
	/// Position and width of the fields written so far, if that is asked for
	pub trace: Option<Vec<(usize, u32)>>
}

impl BitW {
	pub fn put(&mut self, v: u64, width: u32) {
		if let (Some(t), true) = (&mut self.trace, width > 0) {
			t.push((self.nbits, width));
		}
		for i in 0..width {
			let bit = if i < 64 { (v >> i) & 1 } else { 0 };
			if self.nbits % 8 == 0 {
				self.buf.push(0);
			}
			if bit != 0 {
				*self.buf.last_mut().unwrap() |= 1 << (self.nbits % 8);
			}
			self.nbits += 1;
		}
	}
	pub fn flag(&mut self, f: bool) {
		self.put(f as u64, 1)
	}
	/// Writes a codeword whose first transmitted bit is the most significant of `len`.
	pub fn code(&mut self, code: u32, len: u8) {
		for i in (0..len).rev() {
			self.put(((code >> i) & 1) as u64, 1);
		}
	}
	pub fn align(&mut self) {
		self.nbits = self.buf.len() * 8;
	}
}

#[derive(Clone)]
pub struct BitR<'a> {
	pub data: &'a [u8],
	pub pos: usize
}

impl<'a> BitR<'a> {
	pub fn new(data: &'a [u8]) -> Self {
		BitR { data, pos: 0 }
	}
	pub fn get(&mut self, width: u32) -> Option<u32> {
		if self.pos + width as usize > self.data.len() * 8 {
			return None;
		}
		let mut v = 0u32;
		for i in 0..width {
			let p = self.pos + i as usize;
			v |= (((self.data[p / 8] >> (p % 8)) & 1) as u32) << i;
		}
		self.pos += width as usize;
		Some(v)
	}
	pub fn bit(&mut self) -> Option<bool> {
		let p = self.pos;
		let b = self.data.get(p / 8)?;
		self.pos += 1;
		Some((b >> (p % 8)) & 1 != 0)
	}
	pub fn left(&self) -> usize {
		self.data.len() * 8 - self.pos
	}
}

pub fn ilog(n: u32) -> u32 {
	32 - n.leading_zeros()
}

/// Largest r with r^dims <= entries, by exact integer arithmetic.
pub fn lookup1_values(entries: u32, dims: u16) -> u32 {
	assert!(dims > 0);
	let pow_le = |r: u64| -> bool {
		let mut p = 1u64;
		for _ in 0..dims {
			p = p.saturating_mul(r);
			if p > entries as u64 {
				return false;
			}
			if r <= 1 {
				break;
			}
		}
		p <= entries as u64
	};
	let (mut lo, mut hi) = (0u64, entries as u64 + 1);
	// invariant: lo satisfies (0^d = 0 <= entries), hi does not
	while hi - lo > 1 {
		let mid = (lo + hi) / 2;
		if pow_le(mid) {
			lo = mid
		} else {
			hi = mid
		}
	}
	lo as u32
}

/// Exact value of a Vorbis float32 word.
pub fn float32_value(word: u32) -> f64 {
	let mut m = (word & 0x1f_ffff) as f64;
	let e = ((word >> 21) & 0x3ff) as i32 - 788;
	// Exact scaling by repeated multiplication (the result is always a normal double)
	let f = if e < 0 { 0.5 } else { 2.0 };
	for _ in 0..e.abs() {
		m *= f;
	}
	if word >> 31 != 0 {
		-m
	} else {
		m
	}
}
