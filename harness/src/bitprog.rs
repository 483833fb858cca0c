// An interpreter of bitpacking programs, compiled against the default and the no-std build of
// the bitpacker: the including module must provide `io` (std::io or acid_io).

use crate::io::{Error, ErrorKind, Read, Result, Write};
use vorbis_bitpack::{BitpackReader, BitpackWriter, BitpackedIntegerWidth};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Op {
	/// 0 unsigned, 1 signed, 2 float32, 3 flag, 4 finalize, 5 flush
	pub code: u8,
	pub width: u8,
	pub arg: u64
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Prog {
	pub write: bool,
	pub ops: Vec<Op>,
	/// Source data for reading programs
	pub data: Vec<u8>,
	/// Number of bytes after which the source or sink fails
	pub limit: u64,
	/// 0: no failure (a source ends), 1: error, 2: the sink accepts no bytes
	pub fault: u8,
	/// Every n-th operation is interrupted (0: none)
	pub interrupt: u8
}

/// What an operation sequence gave.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Log {
	/// Number of operations that succeeded, and the error of the one that failed
	pub done: u64,
	pub error: String,
	pub values: Vec<u64>,
	pub bytes: Vec<u8>,
	pub flushes: u64
}

struct Sink<'a> {
	log: &'a mut Log,
	prog: &'a Prog,
	calls: u64
}

impl Sink<'_> {
	fn interrupted(&mut self) -> bool {
		self.calls += 1;
		self.prog.interrupt > 0 && self.calls % self.prog.interrupt as u64 == 0 && self.prog.interrupt > 1
	}
}

impl Write for Sink<'_> {
	fn write(&mut self, buf: &[u8]) -> Result<usize> {
		if self.interrupted() {
			return Err(Error::from(ErrorKind::Interrupted));
		}
		if buf.is_empty() {
			return Ok(0);
		}
		let left = if self.prog.fault == 0 { u64::MAX } else { self.prog.limit.saturating_sub(self.log.bytes.len() as u64) };
		if left == 0 {
			return if self.prog.fault == 1 { Err(Error::from(ErrorKind::InvalidData)) } else { Ok(0) };
		}
		// One byte at a time
		self.log.bytes.push(buf[0]);
		Ok(1)
	}
	fn flush(&mut self) -> Result<()> {
		if self.prog.fault != 0 && self.log.bytes.len() as u64 >= self.prog.limit {
			return Err(Error::from(ErrorKind::InvalidData));
		}
		self.log.flushes += 1;
		Ok(())
	}
}

struct Source<'a> {
	prog: &'a Prog,
	pos: usize,
	calls: u64
}

impl Read for Source<'_> {
	fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
		self.calls += 1;
		if self.prog.interrupt > 1 && self.calls % self.prog.interrupt as u64 == 0 {
			return Err(Error::from(ErrorKind::Interrupted));
		}
		if buf.is_empty() {
			return Ok(0);
		}
		if self.prog.fault != 0 && self.pos as u64 >= self.prog.limit {
			return Err(Error::from(ErrorKind::InvalidData));
		}
		match self.prog.data.get(self.pos) {
			Some(b) => {
				buf[0] = *b;
				self.pos += 1;
				Ok(1)
			}
			None => Ok(0)
		}
	}
}

fn width(w: u8) -> BitpackedIntegerWidth {
	BitpackedIntegerWidth::new(w).expect("valid width")
}

pub fn run(prog: &Prog) -> Log {
	let mut log = Log::default();
	if prog.write {
		let mut counts = (0, String::new());
		let mut w = BitpackWriter::new(Sink { log: &mut log, prog, calls: 0 });
		for op in &prog.ops {
			let r = match op.code {
				0 => w.write_unsigned_integer(op.arg as u32, width(op.width)),
				1 => w.write_signed_integer(op.arg as u32 as i32, width(op.width)),
				2 => w.write_float32(f64::from_bits(op.arg)),
				3 => w.write_flag(op.arg & 1 != 0),
				4 => w.finalize(),
				_ => w.flush()
			};
			match r {
				Ok(()) => counts.0 += 1,
				Err(e) => {
					counts.1 = format!("{:?}", e.kind());
					break;
				}
			}
		}
		drop(w);
		log.done = counts.0;
		log.error = counts.1;
	} else {
		let mut r = BitpackReader::new(Source { prog, pos: 0, calls: 0 });
		for op in &prog.ops {
			let v = match op.code {
				0 => r.read_unsigned_integer(width(op.width)).map(|v| v as u64),
				1 => r.read_signed_integer(width(op.width)).map(|v| v as i64 as u64),
				2 => r.read_float32().map(|v| v.to_bits()),
				_ => r.read_flag().map(|v| v as u64)
			};
			match v {
				Ok(v) => {
					log.done += 1;
					log.values.push(v);
				}
				Err(e) => {
					log.error = format!("{:?}", e.kind());
					break;
				}
			}
		}
		// The position of the source
		log.flushes = r.into_inner().pos as u64;
	}
	log
}

pub fn put_bytes(o: &mut Vec<u8>, d: &[u8]) {
	o.extend((d.len() as u32).to_le_bytes());
	o.extend(d);
}

pub fn take<'a>(d: &mut &'a [u8], n: usize) -> &'a [u8] {
	let (a, b) = d.split_at(n);
	*d = b;
	a
}

pub fn take_u32(d: &mut &[u8]) -> usize {
	u32::from_le_bytes(take(d, 4).try_into().unwrap()) as usize
}

pub fn take_u64(d: &mut &[u8]) -> u64 {
	u64::from_le_bytes(take(d, 8).try_into().unwrap())
}

impl Prog {
	pub fn encode(&self) -> Vec<u8> {
		let mut o = vec![self.write as u8, self.fault, self.interrupt];
		o.extend(self.limit.to_le_bytes());
		put_bytes(&mut o, &self.data);
		o.extend((self.ops.len() as u32).to_le_bytes());
		for p in &self.ops {
			o.extend([p.code, p.width]);
			o.extend(p.arg.to_le_bytes());
		}
		o
	}
	pub fn decode(mut d: &[u8]) -> Prog {
		let d = &mut d;
		let h = take(d, 3);
		let limit = take_u64(d);
		let n = take_u32(d);
		let data = take(d, n).to_vec();
		let n = take_u32(d);
		let ops = (0..n)
			.map(|_| {
				let h = take(d, 2);
				Op { code: h[0], width: h[1], arg: take_u64(d) }
			})
			.collect();
		Prog { write: h[0] != 0, fault: h[1], interrupt: h[2], limit, data, ops }
	}
}

impl Log {
	pub fn encode(&self) -> Vec<u8> {
		let mut o = vec![];
		o.extend(self.done.to_le_bytes());
		o.extend(self.flushes.to_le_bytes());
		put_bytes(&mut o, self.error.as_bytes());
		put_bytes(&mut o, &self.bytes);
		o.extend((self.values.len() as u32).to_le_bytes());
		for v in &self.values {
			o.extend(v.to_le_bytes());
		}
		o
	}
	pub fn decode(mut d: &[u8]) -> Log {
		let d = &mut d;
		let done = take_u64(d);
		let flushes = take_u64(d);
		let n = take_u32(d);
		let error = String::from_utf8_lossy(take(d, n)).into_owned();
		let n = take_u32(d);
		let bytes = take(d, n).to_vec();
		let n = take_u32(d);
		let values = (0..n).map(|_| take_u64(d)).collect();
		Log { done, error, values, bytes, flushes }
	}
}
