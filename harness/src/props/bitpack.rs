//! Properties of the bitpacker: C20, C21 and C22.

use crate::bitprog::{self, Log, Op, Prog};
use crate::bits::*;
use crate::engine::*;
use crate::sut::{guard, Outcome};
use std::io::{Read, Write};
use vorbis_bitpack::{BitpackReader, BitpackWriter, BitpackedIntegerWidth};

fn execute(p: &Prog) -> Result<Log, Failure> {
	match guard(|| Ok(bitprog::run(p))) {
		Outcome::Ok(l) => Ok(l),
		o => fail("panic", format!("{} while running {p:?}", o.brief()))
	}
}

fn bits_of(op: &Op) -> u32 {
	match op.code {
		0 | 1 => op.width as u32,
		2 => 32,
		3 => 1,
		_ => 0
	}
}

fn draw_width(t: &mut Tape) -> u8 {
	match t.weighted(&[3, 3, 1]) {
		0 => t.range(0, 9) as u8,
		1 => t.range(0, 32) as u8,
		_ => *t.pick(&[8u8, 16, 24, 32, 0, 7, 31])
	}
}

fn draw_value(t: &mut Tape) -> u64 {
	match t.weighted(&[2, 1, 2, 1]) {
		0 => t.below(1 << 32),
		1 => t.range(0, 9),
		2 => u32::MAX as u64 - t.range(0, 9),
		_ => 1u64 << t.below(32)
	}
}

fn draw_prog(t: &mut Tape, write: bool, floats: bool) -> Prog {
	let n = match t.weighted(&[5, 2, 1]) {
		0 => t.size(1, 12),
		1 => t.size(1, 60),
		_ => t.size(1, 400)
	};
	let mut p = Prog { write, ..Prog::default() };
	let mut need = 0;
	for _ in 0..n {
		let code = match t.weighted(&[6, 4, 2, if floats { 2 } else { 0 }, write as u64, write as u64]) {
			0 => 0,
			1 => 1,
			2 => 3,
			3 => 2,
			4 => 4,
			_ => 5
		};
		let op = Op {
			code,
			width: if code < 2 { draw_width(t) } else { 0 },
			arg: match code {
				0 | 1 => draw_value(t),
				2 => draw_float(t).to_bits(),
				3 => t.below(2),
				_ => 0
			}
		};
		need += bits_of(&op) as usize;
		p.ops.push(op);
	}
	let bytes = need.div_ceil(8);
	if !write {
		let len = match t.weighted(&[3, 2, 1]) {
			0 => bytes,
			1 => t.size(0, bytes),
			_ => bytes + t.size(0, 4)
		};
		p.data = if t.chance(1, 8) { vec![0xff; len] } else { t.bytes(len) };
	}
	p.fault = t.weighted(&[3, 1, write as u64]) as u8;
	if p.fault > 0 {
		p.limit = t.below(bytes as u64 + 2);
	}
	p.interrupt = *t.pick(&[0, 0, 0, 2, 3, 7]);
	p
}

/// What the sink has to have after each operation, complete bytes only, and the final content.
fn model_write(p: &Prog) -> (Vec<usize>, Vec<u8>) {
	let mut w = BitW::default();
	let mut complete = vec![];
	for op in &p.ops {
		match op.code {
			0 | 1 => w.put(op.arg & 0xffff_ffff, op.width as u32),
			3 => w.put(op.arg & 1, 1),
			4 => w.align(),
			_ => ()
		}
		complete.push(w.nbits / 8);
	}
	(complete, w.buf)
}

fn check_write(p: &Prog, log: &Log) -> CaseResult {
	let (complete, all) = model_write(p);
	let bad = |kind: &str, m: String| fail(kind, format!("{m}; program {p:?}; gave {log:?}; wanted {}", hex(&all)));
	// Bytes up to the limit reach the sink
	if p.fault == 0 || all.len() as u64 <= p.limit {
		if log.error.is_empty() {
			if log.done as usize != p.ops.len() || log.bytes != all {
				return bad("wrong-bits", "the written bytes are wrong".into());
			}
			return Ok(());
		}
		// Only a flush may fail, because the sink refuses it when it is full
		let op = p.ops.get(log.done as usize);
		let full = p.fault != 0 && complete[log.done as usize] as u64 >= p.limit;
		if !full || op.map(|o| o.code) != Some(5) || log.error != "InvalidData" {
			return bad("false-error", "an error without a failing sink".into());
		}
	} else {
		// The first operation after which the sink must have been asked for more than it takes
		let first = complete.iter().position(|n| *n as u64 > p.limit);
		match first {
			Some(first) => {
				if log.error.is_empty() || log.done as usize > first {
					return bad("error-lost", "the sink failed, but no operation did".into());
				}
			}
			// Only the padded last byte fails, when the writer is dropped
			None if log.error.is_empty() => (),
			None => {
				if p.ops[log.done as usize].code != 5 {
					return bad("false-error", "an error before the sink failed".into());
				}
			}
		}
		if !log.error.is_empty() {
			let op = &p.ops[log.done as usize];
			let kind = if op.code == 5 || p.fault == 1 { "InvalidData" } else { "WriteZero" };
			if log.error != kind {
				return bad("wrong-error", format!("the sink's error was {kind}"));
			}
			if op.code != 5 && (complete[log.done as usize] as u64) <= p.limit {
				return bad("false-error", "an error before the sink failed".into());
			}
		}
	}
	if !all.starts_with(&log.bytes[..log.bytes.len().min(p.limit as usize)]) || log.bytes.len() as u64 > p.limit {
		// After a failed flush, the pending byte of the writer is padded when it is dropped
		let (n, _) = (log.bytes.len(), ());
		let flushed = p.ops.get(log.done as usize).is_some_and(|o| o.code == 5);
		let prefix = Prog { ops: p.ops[..log.done as usize].to_vec(), ..p.clone() };
		if !flushed || model_write(&prefix).1[..n.min(model_write(&prefix).1.len())] != log.bytes[..] {
			return bad("wrong-bits", "the written bytes are no prefix of the right ones".into());
		}
	}
	Ok(())
}

fn describe(p: &Prog) -> String {
	let ops = p.ops.iter().take(8).map(|o| format!("{}{}({:x})", ["u", "s", "f", "b", "finalize", "flush"][o.code as usize], o.width, o.arg)).collect::<Vec<_>>().join(" ");
	format!(
		"{} {} operations: {ops}{}; fault {} at {}, interrupts {}, {} bytes of data",
		if p.write { "write" } else { "read" },
		p.ops.len(),
		if p.ops.len() > 8 { " ..." } else { "" },
		p.fault,
		p.limit,
		p.interrupt,
		p.data.len()
	)
}

fn classify(cx: &mut Cx, p: &Prog, log: &Log) {
	cx.hash = hash_bytes(&p.encode());
	cx.nontrivial = p.ops.iter().any(|o| bits_of(o) % 8 != 0) && log.done > 0;
	cx.sample = Some(describe(p));
	cx.label_if(!log.error.is_empty(), &format!("error {}", log.error));
	cx.label_if(p.interrupt > 0, "interrupted operations");
	cx.label_if(p.ops.iter().rev().skip(1).any(|o| o.code == 4), "finalized in the middle");
	cx.evals = log.done.max(1);
}

fn c20_writes(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let p = draw_prog(t, true, false);
	let log = execute(&p)?;
	classify(cx, &p, &log);
	check_write(&p, &log)
}

fn check_read(p: &Prog, log: &Log) -> CaseResult {
	let end = if p.fault != 0 { p.data.len().min(p.limit as usize) } else { p.data.len() };
	let mut r = BitR::new(&p.data[..end]);
	let bad = |kind: &str, m: String| fail(kind, format!("{m}; program {p:?}; gave {log:?}"));
	for (i, op) in p.ops.iter().enumerate() {
		let w = bits_of(op);
		match r.get(w) {
			Some(v) => {
				let want = match op.code {
					1 => {
						let mut v = v as i64;
						if w > 0 && v >> (w - 1) & 1 != 0 {
							v -= 1i64 << w;
						}
						v as u64
					}
					2 => float32_value(v).to_bits(),
					_ => v as u64
				};
				match log.values.get(i) {
					Some(g) if *g == want => (),
					g => return bad("wrong-value", format!("operation {i} gave {g:x?} instead of {want:x}"))
				}
			}
			None => {
				let kind = if p.fault != 0 && p.limit as usize <= p.data.len() { "InvalidData" } else { "UnexpectedEof" };
				if log.done as usize != i || log.error != kind {
					return bad("read-past-end", format!("operation {i} has to fail with {kind}"));
				}
				return Ok(());
			}
		}
	}
	if log.done as usize != p.ops.len() || log.flushes as usize != r.pos.div_ceil(8) {
		return bad("source-position", format!("{} bytes are needed, {} were taken", r.pos.div_ceil(8), log.flushes));
	}
	Ok(())
}

fn c20_reads(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let p = draw_prog(t, false, false);
	let log = execute(&p)?;
	classify(cx, &p, &log);
	check_read(&p, &log)
}

/// What one sequence writes, another partition of the same bits reads.
fn c20_partitions(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let mut p = draw_prog(t, true, false);
	p.fault = 0;
	p.ops.retain(|o| o.code != 4);
	let log = execute(&p)?;
	let total: u32 = p.ops.iter().map(bits_of).sum();
	let mut q = Prog { write: false, data: log.bytes.clone(), interrupt: p.interrupt, ..Prog::default() };
	let mut left = total;
	while left > 0 {
		let op = Op { code: *t.pick(&[0, 1, 3]), width: draw_width(t), arg: 0 };
		if bits_of(&op) > left {
			q.ops.push(Op { code: 0, width: left.min(32) as u8, arg: 0 });
			left -= left.min(32);
		} else {
			left -= bits_of(&op);
			q.ops.push(op);
		}
	}
	let back = execute(&q)?;
	classify(cx, &p, &log);
	check_write(&p, &log)?;
	check_read(&q, &back)
}

/// Every bit offset, first and second width, with telling values.
fn c20_every_pair(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let (o, rest) = (t.index % 8, t.index / 8);
	let (a, b) = ((rest % 33) as u8, (rest / 33 % 33) as u8);
	cx.sample = Some(format!("offset {o}, widths {a} and {b}"));
	for v in [0u64, 0xffff_ffff, 0xa5a5_5a5a, 0x8000_0001] {
		for signed in [0u8, 1] {
			for middle in [0u8, 4] {
				let mut ops = vec![
					Op { code: 0, width: o as u8, arg: v >> 3 },
					Op { code: signed, width: a, arg: v },
					Op { code: 0, width: b, arg: v.rotate_left(7) },
					Op { code: signed, width: 3, arg: 2 }
				];
				if middle == 4 {
					ops.insert(2, Op { code: 4, width: 0, arg: 0 });
				}
				let p = Prog { write: true, ops, ..Prog::default() };
				let log = execute(&p)?;
				check_write(&p, &log)?;
				let mut q = Prog { write: false, data: log.bytes.clone(), ops: p.ops.clone(), ..Prog::default() };
				q.ops.retain(|o| o.code != 4);
				let back = execute(&q)?;
				check_read(&q, &back)?;
				q.data = v.to_le_bytes().repeat(2);
				let back = execute(&q)?;
				check_read(&q, &back)?;
				cx.evals += 3;
				cx.extra.push(t.index << 8 ^ hash_bytes(&p.encode()));
			}
		}
	}
	Ok(())
}

/// Long sequences of whole-stream size.
fn c20_long(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let mut r = Rng::new(t.seed());
	let n = t.size(1000, 60_000);
	let mut p = Prog { write: true, ..Prog::default() };
	for _ in 0..n {
		let code = [0, 0, 1, 3][r.below(4) as usize];
		p.ops.push(Op { code, width: r.below(33) as u8, arg: r.next() & 0xffff_ffff });
	}
	let log = execute(&p)?;
	classify(cx, &p, &log);
	if check_write(&p, &log).is_err() {
		return fail("wrong-bits", format!("{} operations write wrong bytes", p.ops.len()));
	}
	let q = Prog { write: false, data: log.bytes, ops: p.ops, ..Prog::default() };
	let back = execute(&q)?;
	if check_read(&q, &back).is_err() {
		return fail("wrong-value", format!("{} operations read wrong values", q.ops.len()));
	}
	Ok(())
}

// ---- C21

fn draw_float(t: &mut Tape) -> f64 {
	match t.weighted(&[4, 2, 2, 1, 1]) {
		0 => {
			// Any exponent around the representable range
			let e = match t.weighted(&[2, 1, 1, 1]) {
				0 => t.range(1, 2046),
				1 => t.range(200, 300),
				2 => t.range(1230, 1300),
				_ => t.range(1000, 1050)
			};
			f64::from_bits(t.below(2) << 63 | e << 52 | (t.below(1 << 52)))
		}
		1 => float32_value(t.below(1 << 32) as u32),
		2 => {
			// A number next to a representable one
			let v = float32_value(t.below(1 << 32) as u32);
			f64::from_bits(if t.chance(1, 2) { v.to_bits() + t.range(0, 3) } else { v.to_bits().saturating_sub(t.range(0, 3)) })
		}
		3 => f64::from_bits(t.below(0)),
		_ => *t.pick(&[0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::NAN, 5e-324])
	}
}

fn read_word(word: u32) -> f64 {
	let b = word.to_le_bytes();
	BitpackReader::new(&b[..]).read_float32().expect("four bytes")
}

fn write_value(v: f64) -> u32 {
	let mut b = [0u8; 4];
	let mut w = BitpackWriter::new(&mut b[..]);
	w.write_float32(v).expect("four bytes");
	drop(w);
	u32::from_le_bytes(b)
}

/// The value of a word, exactly.
fn value_fast(word: u32) -> f64 {
	let m = (word & 0x1f_ffff) as f64;
	let e = (word >> 21 & 0x3ff) as u64;
	// 2^(e - 788) is a normal number, and the product too
	let v = m * f64::from_bits((e + 1023 - 788) << 52);
	if word >> 31 != 0 {
		-v
	} else {
		v
	}
}

/// All words with one sign and exponent.
fn c21_every_word(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let high = (t.index as u32) << 21;
	cx.sample = Some(format!("all 2097152 words with the upper 11 bits {:011b}", t.index));
	let bad = guard(|| {
		for m in 0..1u32 << 21 {
			let word = high | m;
			let want = value_fast(word);
			if m < 300 {
				assert!(want == float32_value(word));
			}
			let got = read_word(word);
			if got.to_bits() != want.to_bits() {
				return Ok(Some((word, format!("reads as {got:e} instead of {want:e}"))));
			}
			let back = write_value(got);
			let again = value_fast(back);
			if again.to_bits() != want.to_bits() {
				return Ok(Some((word, format!("reads as {got:e}, which is written as {back:08x}, that is {again:e}"))));
			}
		}
		Ok(None)
	});
	cx.evals = 1 << 21;
	cx.nontrivial = true;
	cx.hash = t.index;
	match bad {
		Outcome::Ok(None) => Ok(()),
		Outcome::Ok(Some((w, m))) => fail("float32", format!("the word {w:08x} {m}")),
		o => fail("panic", o.brief())
	}
}

/// The closest representable values below and above a positive number, as exact doubles.
fn neighbours(v: f64) -> (f64, Option<f64>) {
	// Largest exponent that leaves the mantissa normalized; below, the smallest exponent
	let e = ((v.to_bits() >> 52) & 0x7ff) as i64 - 1023 - 20;
	let e = e.max(-788);
	if e > 1023 - 788 {
		return (value_fast(0x7fff_ffff), None);
	}
	let scale = f64::from_bits(((e + 1023) as u64) << 52);
	// Both divisions by powers of two are exact or give a number below 1
	let m = (v / scale).floor();
	let upper = (m + 1.0) * scale;
	let top = value_fast(0x7fff_ffff);
	(m * scale, if v > top { None } else if m * scale == v { Some(v) } else { Some(upper) })
}

fn c21_unrepresentable(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	for _ in 0..50 {
		let v = draw_float(t);
		cx.evals += 1;
		let word = match guard(|| Ok(write_value(v))) {
			Outcome::Ok(w) => w,
			o => return fail("panic", format!("writing {v:e}: {}", o.brief()))
		};
		cx.sample = Some(format!("{v:e} -> {word:08x}"));
		if v.is_nan() || v.is_subnormal() {
			cx.label("not a number or subnormal (any word)");
			continue;
		}
		cx.extra.push(v.to_bits());
		let got = value_fast(word);
		if word >> 31 != (v.to_bits() >> 63) as u32 {
			return fail("sign", format!("{v:e} is written as {word:08x}, which has another sign"));
		}
		let (lower, upper) = neighbours(v.abs());
		match upper {
			Some(u) => {
				cx.label(if u == v.abs() { "representable" } else { "between two representable values" });
				if got.abs() != lower && got.abs() != u {
					return fail("not-a-neighbour", format!("{v:e} is written as {word:08x} = {got:e}, between {lower:e} and {u:e}"));
				}
				if u == v.abs() && got != v {
					return fail("not-exact", format!("{v:e} is written as {word:08x} = {got:e}"));
				}
			}
			None => {
				cx.label("too large");
				if word >> 21 & 0x3ff != 0x3ff || word & 0x10_0000 == 0 {
					return fail("not-saturated", format!("{v:e} is written as {word:08x} = {got:e}"));
				}
			}
		}
	}
	Ok(())
}

/// Floats within other data.
fn c21_embedded(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let mut p = draw_prog(t, false, true);
	p.ops.push(Op { code: 2, width: 0, arg: 0 });
	let extra = t.bytes(5);
	p.data.extend(extra);
	let log = execute(&p)?;
	classify(cx, &p, &log);
	check_read(&p, &log)?;
	// Written values come back
	let before = Op { code: 0, width: t.range(0, 32) as u8, arg: t.below(1 << 32) };
	let values: Vec<u32> = (0..t.size(1, 6)).map(|_| t.below(1 << 32) as u32).collect();
	let mut ops = vec![before];
	ops.extend(values.iter().map(|v| Op { code: 2, width: 0, arg: float32_value(*v).to_bits() }));
	let w = execute(&Prog { write: true, ops: ops.clone(), ..Prog::default() })?;
	let r = execute(&Prog { write: false, ops, data: w.bytes, ..Prog::default() })?;
	for (i, v) in values.iter().enumerate() {
		if r.values.get(i + 1) != Some(&float32_value(*v).to_bits()) {
			return fail("float32", format!("the value of {v:08x} written after {} bits is read back as {:x?}", before.width, r.values.get(i + 1)));
		}
	}
	Ok(())
}

// ---- C22

struct Worker {
	child: std::process::Child
}

impl Worker {
	fn start() -> Worker {
		let path = std::env::var("OVVERIF_NOSTD").unwrap_or_else(|_| format!("{}/.target/nostd/release/ovnostd", crate::verif_dir()));
		let child = std::process::Command::new(&path)
			.stdin(std::process::Stdio::piped())
			.stdout(std::process::Stdio::piped())
			.spawn()
			.unwrap_or_else(|e| panic!("cannot start {path}: {e}"));
		Worker { child }
	}
	fn run(&mut self, p: &Prog) -> Log {
		let mut d = vec![];
		bitprog::put_bytes(&mut d, &p.encode());
		let i = self.child.stdin.as_mut().unwrap();
		i.write_all(&d).expect("no-std worker takes a program");
		i.flush().unwrap();
		let o = self.child.stdout.as_mut().unwrap();
		let mut n = [0u8; 4];
		o.read_exact(&mut n).expect("no-std worker answers");
		let mut d = vec![0u8; u32::from_le_bytes(n) as usize];
		o.read_exact(&mut d).expect("no-std worker answers");
		Log::decode(&d)
	}
}

impl Drop for Worker {
	fn drop(&mut self) {
		drop(self.child.stdin.take());
		let _ = self.child.wait();
	}
}

thread_local! {
	static WORKER: std::cell::RefCell<Option<Worker>> = const { std::cell::RefCell::new(None) };
}

fn compare(p: &Prog) -> Result<Log, Failure> {
	let a = match guard(|| Ok(bitprog::run(p))) {
		Outcome::Ok(l) => l,
		_ => Log { error: "panic".into(), ..Log::default() }
	};
	let b = WORKER.with(|w| w.borrow_mut().get_or_insert_with(Worker::start).run(p));
	if a != b {
		return fail("builds-differ", format!("{}: default build {a:?}, no-std build {b:?}", describe(p)));
	}
	Ok(a)
}

fn c22_programs(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let write = t.chance(1, 2);
	let p = draw_prog(t, write, true);
	let log = compare(&p)?;
	classify(cx, &p, &log);
	Ok(())
}

/// Every exponent, with some mantissas, read and written.
fn c22_floats(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let high = (t.index as u32) << 21;
	let mut r = Rng::new(t.index + 77);
	let mut words: Vec<u32> = vec![0, 1, 2, 3, 0x10_0000, 0x1f_ffff, 0x0f_ffff, 0x15_5555];
	words.extend((0..250).map(|_| r.below(1 << 21) as u32));
	let mut p = Prog { write: false, ..Prog::default() };
	for w in &words {
		p.data.extend((high | w).to_le_bytes());
		p.ops.push(Op { code: 2, width: 0, arg: 0 });
	}
	let log = compare(&p)?;
	cx.evals = words.len() as u64;
	cx.extra.extend(words.iter().map(|w| (high | w) as u64));
	cx.nontrivial = true;
	cx.hash = t.index;
	cx.sample = Some(format!("{} words with the upper 11 bits {:011b}: {:e} ...", words.len(), t.index, f64::from_bits(log.values[1])));
	let q = Prog { write: true, ops: log.values.iter().map(|v| Op { code: 2, width: 0, arg: *v }).collect(), ..Prog::default() };
	compare(&q)?;
	// All double exponents, two per case
	let ops = (0..100).map(|k| Op { code: 2, width: 0, arg: (t.index * 2 + k % 2) << 52 | r.below(1 << 52) }).collect();
	compare(&Prog { write: true, ops, ..Prog::default() })?;
	cx.evals += 350;
	Ok(())
}

fn c22_every_pair(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let (o, rest) = (t.index % 8, t.index / 8);
	let (a, b) = ((rest % 33) as u8, (rest / 33 % 33) as u8);
	cx.sample = Some(format!("offset {o}, widths {a} and {b}"));
	cx.nontrivial = true;
	cx.hash = t.index;
	for v in [0xffff_ffffu64, 0x8000_0001] {
		for code in [0u8, 1] {
			let ops = vec![
				Op { code: 0, width: o as u8, arg: v >> 3 },
				Op { code, width: a, arg: v },
				Op { code: 0, width: b, arg: v.rotate_left(7) },
				Op { code: 4, width: 0, arg: 0 },
				Op { code, width: 3, arg: 2 }
			];
			let mut p = Prog { write: true, ops, ..Prog::default() };
			compare(&p)?;
			p.write = false;
			p.ops.remove(3);
			p.data = v.to_le_bytes().repeat(2);
			compare(&p)?;
			p.data.truncate((t.index % 9) as usize);
			compare(&p)?;
			cx.evals += 3;
		}
	}
	Ok(())
}

// ---- Construction of widths

fn c20_widths(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let w = t.index as u8;
	cx.nontrivial = true;
	cx.hash = t.index;
	cx.sample = Some(format!("width {w}"));
	match BitpackedIntegerWidth::new(w) {
		Some(x) if w <= 32 && x.get() == w => Ok(()),
		None if w > 32 => Ok(()),
		r => fail("width", format!("BitpackedIntegerWidth::new({w}) is {r:?}"))
	}
}

pub fn props() -> Vec<Prop> {
	vec![
		Prop {
			id: "C20",
			level: "exploration",
			rule: "sequences of writes (unsigned, signed, flags, any width and value, finalizations and flushes) into sinks that take one byte at a time, interrupt, fail or fill up, and of reads from such sources, against a bit-by-bit model; all combinations of bit offset and two widths with telling values; non-trivial: at least one operation succeeds, and one has a width that is no multiple of 8",
			assumptions: &["what operations do after one of them failed is not specified"],
			campaigns: vec![
				enumeration("widths", 256, c20_widths),
				enumeration("every-pair", 8 * 33 * 33, c20_every_pair),
				campaign("writes", 400_000, 6_000_000, c20_writes),
				campaign("reads", 400_000, 6_000_000, c20_reads),
				campaign("partitions", 250_000, 4_000_000, c20_partitions),
				campaign("long", 200, 4_000, c20_long)
			]
		},
		Prop {
			id: "C21",
			level: "exploration",
			rule: "every one of the 2^32 words is read and its value written back; generated doubles of any exponent, next to representable values and special ones are written; non-trivial: every block of words with the same sign and exponent, and every distinct normal number",
			assumptions: &["NaN and subnormal numbers may be written as any word, as documented", "a number that is too large may get any mantissa that keeps its scale"],
			campaigns: vec![
				enumeration("every-word", 2048, c21_every_word),
				campaign("doubles", 40_000, 600_000, c21_unrepresentable),
				campaign("embedded", 60_000, 600_000, c21_embedded)
			]
		},
		Prop {
			id: "C22",
			level: "exploration",
			rule: "operation sequences as for C20 and C21, with floats of any kind, run by the default build in this process and by the no-std build in worker processes; non-trivial: at least one operation succeeds, and one has a width that is no multiple of 8, or a distinct float word",
			assumptions: &["the no-std build runs on top of acid_io without its std feature"],
			campaigns: vec![
				enumeration("every-pair", 8 * 33 * 33, c22_every_pair),
				enumeration("floats", 2048, c22_floats),
				campaign("programs", 250_000, 4_000_000, c22_programs)
			]
		}
	]
}
