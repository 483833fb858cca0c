//! Properties of the programming interface: C16, C18, C19 and C25.

use super::common::*;
use super::container::{any_input, first_difference, without_serials};
use super::variants;
use crate::audio::Fate;
use crate::checks;
use crate::engine::*;
use crate::gen::{self, Profile};
use crate::model;
use crate::ogg;
use crate::sut::{self, guard, Cfg, Outcome};
use crate::vorbis::*;
use ::ogg::{PacketWriteEndInfo, PacketWriter};
use optivorbis::remuxer::ogg_to_ogg::OggVorbisStreamMangler;
use optivorbis::{OggToOgg, Remuxer, VorbisOptimizer};
use std::cell::RefCell;
use std::io::{Cursor, Error, ErrorKind, Read, Seek, SeekFrom, Write};
use std::num::NonZeroU32;
use std::rc::Rc;

// ---- C16

/// What to do with the I/O operations of a run.
#[derive(Clone, Debug, Default)]
struct Plan {
	/// Index of the operation that fails (all kinds are counted together), and how
	fail_at: u64,
	fault: u8,
	/// Operations after the failing one fail too
	persistent: bool,
	/// Chance of 1/n that an operation is interrupted once before it is done
	interrupt: u64,
	/// Operations process at most this many bytes
	max: usize,
	rng: u64,
	/// The failing write takes some bytes first
	partial: bool
}

/// Kinds of errors that operations fail with.
const FAULTS: [ErrorKind; 16] = [
	ErrorKind::Other,
	ErrorKind::PermissionDenied,
	ErrorKind::WouldBlock,
	ErrorKind::InvalidData,
	ErrorKind::BrokenPipe,
	ErrorKind::TimedOut,
	ErrorKind::UnexpectedEof,
	ErrorKind::NotFound,
	ErrorKind::ConnectionReset,
	ErrorKind::ConnectionAborted,
	ErrorKind::NotConnected,
	ErrorKind::InvalidInput,
	ErrorKind::WriteZero,
	ErrorKind::Unsupported,
	ErrorKind::OutOfMemory,
	ErrorKind::AlreadyExists
];

struct Io {
	plan: Plan,
	rng: Rng,
	ops: u64,
	kinds: Vec<u8>,
	interrupted: bool,
	record: bool,
	hit: bool
}

#[derive(Debug, PartialEq)]
enum Step {
	Go,
	Fail(ErrorKind),
	Zero
}

impl Io {
	fn step(&mut self, kind: u8) -> Step {
		if self.plan.interrupt > 0 && kind != 1 && !self.interrupted && self.rng.below(self.plan.interrupt) == 0 {
			self.interrupted = true;
			return Step::Fail(ErrorKind::Interrupted);
		}
		self.interrupted = false;
		let n = self.ops;
		self.ops += 1;
		if self.record {
			self.kinds.push(kind);
		}
		if n == self.plan.fail_at || (self.plan.persistent && n > self.plan.fail_at) {
			self.hit = true;
			return match self.plan.fault {
				0 if kind == 2 => Step::Zero,
				0 => Step::Fail(ErrorKind::StorageFull),
				n => Step::Fail(FAULTS[(n as usize - 1) % FAULTS.len()])
			};
		}
		Step::Go
	}
}

struct FaultySource<'a> {
	c: Cursor<&'a [u8]>,
	io: Rc<RefCell<Io>>
}

impl Read for FaultySource<'_> {
	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
		if buf.is_empty() {
			return Ok(0);
		}
		let mut io = self.io.borrow_mut();
		match io.step(0) {
			Step::Go => {
				let n = buf.len().min(io.plan.max);
				self.c.read(&mut buf[..n])
			}
			Step::Fail(k) => Err(Error::new(k, "injected")),
			Step::Zero => Err(Error::new(ErrorKind::Other, "injected"))
		}
	}
}

impl Seek for FaultySource<'_> {
	fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
		match self.io.borrow_mut().step(1) {
			Step::Go => self.c.seek(p),
			Step::Fail(k) => Err(Error::new(k, "injected")),
			Step::Zero => Err(Error::new(ErrorKind::Other, "injected"))
		}
	}
}

struct FaultySink {
	data: Rc<RefCell<Vec<u8>>>,
	io: Rc<RefCell<Io>>
}

impl Write for FaultySink {
	fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
		if buf.is_empty() {
			return Ok(0);
		}
		let mut io = self.io.borrow_mut();
		match io.step(2) {
			Step::Go => {
				let n = buf.len().min(io.plan.max);
				self.data.borrow_mut().extend(&buf[..n]);
				Ok(n)
			}
			Step::Fail(ErrorKind::Interrupted) => Err(Error::new(ErrorKind::Interrupted, "injected")),
			Step::Fail(k) => {
				if io.plan.partial && buf.len() > 1 {
					// Some bytes are taken; the next operation fails
					io.plan.partial = false;
					io.plan.fail_at += 1;
					let n = buf.len() / 2;
					self.data.borrow_mut().extend(&buf[..n]);
					return Ok(n);
				}
				Err(Error::new(k, "injected"))
			}
			Step::Zero => Ok(0)
		}
	}
	fn flush(&mut self) -> std::io::Result<()> {
		match self.io.borrow_mut().step(3) {
			Step::Go => Ok(()),
			Step::Fail(k) => Err(Error::new(k, "injected")),
			Step::Zero => Err(Error::new(ErrorKind::Other, "injected"))
		}
	}
}

struct Run {
	outcome: Outcome<()>,
	data: Vec<u8>,
	ops: u64,
	kinds: Vec<u8>,
	hit: bool
}

fn faulty(cfg: &Cfg, input: &[u8], plan: Plan, record: bool) -> Run {
	let io = Rc::new(RefCell::new(Io { rng: Rng::new(plan.rng), plan, ops: 0, kinds: vec![], interrupted: false, record, hit: false }));
	let data = Rc::new(RefCell::new(vec![]));
	let source = FaultySource { c: Cursor::new(input), io: io.clone() };
	let sink = FaultySink { data: data.clone(), io: io.clone() };
	let outcome = guard(|| cfg.remuxer().remux(source, sink).map(|_| ()).map_err(|e| e.to_string()));
	let mut io = io.borrow_mut();
	let data = data.borrow().clone();
	Run { outcome, data, ops: io.ops, kinds: std::mem::take(&mut io.kinds), hit: io.hit }
}

const NONE: Plan = Plan { fail_at: u64::MAX, fault: 0, persistent: false, interrupt: 0, max: usize::MAX, rng: 0, partial: false };

fn c16_input(t: &mut Tape) -> Vec<u8> {
	let (n, f) = (t.size(1, 2), t.size(0, 1));
	let mut d = ogg::encode_pages(&gen::gen_file(t, &Profile { max_bits: 800, ..Profile::small() }, n, f).pages);
	if t.chance(1, 6) {
		// Trailing data that is no page
		let n = t.size(1, 500);
		d.extend(vec![b'x'; n]);
	}
	d
}

fn explain(f: Failure, input: &[u8], cfg: &Cfg) -> Failure {
	let mut f = f.with("input.ogg", input);
	f.msg = format!("{} [settings {cfg:?}]", f.msg);
	f
}

fn c16_points(cx: &mut Cx, cfg: &Cfg, input: &[u8], base: &Run, points: impl Iterator<Item = u64>, t: &mut Tape) -> CaseResult {
	const KINDS: [&str; 4] = ["read", "seek", "write", "flush"];
	for at in points {
		let kind = base.kinds[at as usize] as usize;
		let mut faults: Vec<u8> = vec![1 + t.below(FAULTS.len() as u64) as u8];
		if kind == 0 && t.chance(1, 3) {
			// What sources say when they have nothing more
			faults.push(1 + FAULTS.iter().position(|k| *k == ErrorKind::UnexpectedEof).unwrap() as u8);
		}
		if kind == 2 {
			faults.push(0);
		}
		for fault in faults {
			let plan = Plan { fail_at: at, fault, persistent: t.chance(1, 2), partial: t.chance(1, 3), ..NONE };
			let r = faulty(cfg, input, plan.clone(), false);
			cx.evals += 1;
			cx.label_n(&format!("fault in a {}", KINDS[kind]), 1);
			cx.extra.push(hash_bytes(input) ^ (at << 8 | fault as u64));
			let what = || format!("{} operation {at} of {} ({} of {}) fails: {plan:?}", KINDS[kind], base.ops, base.data.len(), input.len());
			match r.outcome {
				_ if !r.hit => return Err(explain(Failure::new("nondeterministic", format!("operation {at} was not reached")), input, cfg)),
				Outcome::Err(_) => {
					if !base.data.starts_with(&r.data) {
						return Err(explain(Failure::new("wrong-bytes-before-error", format!("{}: the sink got something else", what())), input, cfg));
					}
				}
				Outcome::Ok(()) if r.data == base.data && plan.partial && kind == 2 => {
					// The bytes taken first were all there was
				}
				o => {
					return Err(explain(
						Failure::new("fault-not-reported", format!("{}: {} with {} of {} bytes written", what(), o.brief(), r.data.len(), base.data.len())),
						input,
						cfg
					))
				}
			}
		}
	}
	Ok(())
}

/// Every operation of a run fails.
fn c16_every_operation(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let input = c16_input(t);
	let base = faulty(&cfg, &input, NONE, true);
	if !base.outcome.is_ok() {
		cx.label("rejected");
		return Ok(());
	}
	cx.hash = hash_bytes(&input);
	cx.nontrivial = true;
	cx.sample = Some(format!("{} bytes, each of {} operations fails", input.len(), base.ops));
	c16_points(cx, &cfg, &input, &base, 0..base.ops, t)
}

/// Operations are short, so there are many of them, and some of them fail.
fn c16_corpus(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let (name, d) = t.pick(&CORPUS[..VALID]);
	let base = faulty(&cfg, d, NONE, true);
	cx.label(name);
	cx.hash = t.index;
	cx.sample = Some(format!("{name}, {} operations", base.ops));
	let mut points: Vec<u64> = (0..20).map(|_| t.below(base.ops)).collect();
	points.push(base.ops - 1);
	points.push(base.kinds.iter().rposition(|k| *k == 0).unwrap() as u64);
	points.push(base.kinds.iter().position(|k| *k == 2).unwrap() as u64);
	c16_points(cx, &cfg, d, &base, points.into_iter(), t)
}

/// The sink is full at every possible size.
fn c16_full(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let input = c16_input(t);
	let Outcome::Ok(want) = sut::remux(&cfg, &input) else {
		cx.label("rejected");
		return Ok(());
	};
	cx.hash = hash_bytes(&input);
	cx.nontrivial = true;
	cx.sample = Some(format!("sinks of 0 to {} bytes", want.len()));
	let step = 1 + want.len() / 400;
	let sizes = (0..want.len()).step_by(step).chain(want.len().saturating_sub(30)..want.len() + 1);
	for n in sizes {
		let mut buf = vec![0u8; n];
		let r = guard(|| cfg.remuxer().remux(Cursor::new(&input[..]), &mut buf[..]).map(|_| ()).map_err(|e| e.to_string()));
		cx.evals += 1;
		cx.extra.push(hash_bytes(&input) ^ n as u64);
		let fine = match &r {
			Outcome::Ok(()) => n == want.len() && buf == want,
			Outcome::Err(_) => n < want.len() && want.starts_with(&buf[..n]) || want.is_empty(),
			Outcome::Panic(_) => false
		};
		if !fine {
			return Err(explain(Failure::new("full-sink", format!("a sink of {n} bytes for an output of {} bytes: {}", want.len(), r.brief())), &input, &cfg));
		}
	}
	Ok(())
}

/// Interrupted and short operations change nothing.
fn c16_interrupted(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let input = if t.chance(1, 30) { t.pick(&CORPUS).1.to_vec() } else { any_input(t) };
	let want = sut::remux(&cfg, &input);
	let plan = Plan { interrupt: t.range(1, 20), max: *t.pick(&[usize::MAX, 1, 2, 3, 50, 1000]), rng: t.seed(), ..NONE };
	let r = faulty(&cfg, &input, plan.clone(), false);
	cx.hash = hash_bytes(&input) ^ plan.interrupt ^ plan.max as u64;
	cx.nontrivial = want.is_ok();
	cx.label(if want.is_ok() { "accepted" } else { "rejected" });
	cx.sample = Some(format!("{} bytes, {plan:?}: {}", input.len(), want.brief()));
	match (&r.outcome, &want) {
		(Outcome::Ok(()), Outcome::Ok(w)) if *w == r.data => Ok(()),
		(Outcome::Err(a), Outcome::Err(b)) if a == b => Ok(()),
		_ => Err(explain(
			Failure::new("interruption-matters", format!("{plan:?}: {} with {} bytes instead of {}", r.outcome.brief(), r.data.len(), want.brief())),
			&input,
			&cfg
		))
	}
}

// ---- C18

#[derive(Clone, Debug, PartialEq)]
enum Call {
	Frequency(u32),
	Bitrates(i32, i32, i32),
	Serial(u32, usize, bool),
	End(u8, usize, bool),
	Position(i64, usize, bool, bool)
}

fn end_code(e: PacketWriteEndInfo) -> u8 {
	match e {
		PacketWriteEndInfo::NormalPacket => 0,
		PacketWriteEndInfo::EndPage => 1,
		PacketWriteEndInfo::EndStream => 2
	}
}

fn end_of(c: u8) -> PacketWriteEndInfo {
	match c {
		0 => PacketWriteEndInfo::NormalPacket,
		1 => PacketWriteEndInfo::EndPage,
		_ => PacketWriteEndInfo::EndStream
	}
}

/// Records its calls; returns what was passed, or something else depending on `seed`.
#[derive(Clone)]
struct Mangler {
	calls: Rc<RefCell<Vec<Call>>>,
	returned: Rc<RefCell<Vec<Call>>>,
	seed: u64,
	/// Which hooks change their argument
	change: [bool; 5]
}

impl Mangler {
	fn new(seed: u64, change: [bool; 5]) -> Self {
		Mangler { calls: Default::default(), returned: Default::default(), seed, change }
	}
	fn random(&self, salt: u64) -> Rng {
		let n = self.calls.borrow().len() as u64;
		Rng::new(self.seed ^ (salt << 40) ^ n.wrapping_mul(0x9E37_79B9))
	}
}

impl OggVorbisStreamMangler for Mangler {
	fn mangle_sampling_frequency(&mut self, f: NonZeroU32) -> NonZeroU32 {
		self.calls.borrow_mut().push(Call::Frequency(f.get()));
		let mut r = f;
		if self.change[0] {
			let mut rng = self.random(1);
			r = NonZeroU32::new(match rng.below(4) {
				0 => 1,
				1 => u32::MAX,
				_ => rng.next() as u32 | 1
			})
			.unwrap();
		}
		self.returned.borrow_mut().push(Call::Frequency(r.get()));
		r
	}
	fn mangle_bitrates(&mut self, a: i32, b: i32, c: i32) -> (i32, i32, i32) {
		self.calls.borrow_mut().push(Call::Bitrates(a, b, c));
		let mut r = (a, b, c);
		if self.change[1] {
			let mut rng = self.random(2);
			let mut v = |x: i32| match rng.below(5) {
				0 => x,
				1 => 0,
				2 => -1,
				3 => i32::MIN,
				_ => rng.next() as i32
			};
			r = (v(a), v(b), v(c));
		}
		self.returned.borrow_mut().push(Call::Bitrates(r.0, r.1, r.2));
		r
	}
	fn mangle_packet_stream_serial(&mut self, s: u32, n: usize, last: bool) -> u32 {
		self.calls.borrow_mut().push(Call::Serial(s, n, last));
		let mut r = s;
		if self.change[2] {
			let mut rng = self.random(3);
			r = match self.seed % 3 {
				0 => s ^ 0x5555_0000,
				1 => s.wrapping_add((n > 4) as u32 * 77),
				_ => s.wrapping_add(rng.below(3) as u32)
			};
		}
		self.returned.borrow_mut().push(Call::Serial(r, n, last));
		r
	}
	fn mangle_packet_page_end_info(&mut self, e: PacketWriteEndInfo, n: usize, last: bool) -> PacketWriteEndInfo {
		self.calls.borrow_mut().push(Call::End(end_code(e), n, last));
		let mut r = e;
		if self.change[3] {
			let mut rng = self.random(4);
			r = match self.seed / 3 % 3 {
				0 if end_code(e) == 0 => PacketWriteEndInfo::EndPage,
				1 if rng.below(3) == 0 => PacketWriteEndInfo::EndPage,
				2 => end_of(rng.below(3) as u8),
				_ => e
			};
		}
		self.returned.borrow_mut().push(Call::End(end_code(r), n, last));
		r
	}
	fn mangle_granule_position(&mut self, g: i64, n: usize, header: bool, last: bool) -> i64 {
		self.calls.borrow_mut().push(Call::Position(g, n, header, last));
		let mut r = g;
		if self.change[4] {
			let mut rng = self.random(5);
			r = match rng.below(5) {
				0 => g,
				1 => -1,
				2 => 0,
				3 => g.wrapping_add(100_000),
				_ => rng.next() as i64
			};
		}
		self.returned.borrow_mut().push(Call::Position(r, n, header, last));
		r
	}
}

fn remux_mangled(cfg: &Cfg, m: Mangler, input: &[u8]) -> Outcome<Vec<u8>> {
	guard(|| OggToOgg::new(cfg.settings(m), cfg.optimizer()).remux(Cursor::new(input), Vec::new()).map_err(|e| e.to_string()))
}

fn differing(got: &[&Call], want: &[Call]) -> String {
	let k = got.iter().zip(want).position(|(a, b)| *a != b).unwrap_or(got.len().min(want.len()));
	format!("{} calls instead of {}, call {k} is {:?} instead of {:?}", got.len(), want.len(), got.get(k), want.get(k))
}

fn c18_case(t: &mut Tape, cx: &mut Cx, input: Vec<u8>, cfg: Cfg) -> CaseResult {
	let Some(c) = accepted(cx, input, cfg, false)? else { return Ok(()) };
	let bad = |kind: &str, m: String| Err(c.explain(Failure::new(kind, m)));
	// A mangler that returns its arguments
	let rec = Mangler::new(0, [false; 5]);
	match remux_mangled(&c.cfg, rec.clone(), &c.input) {
		Outcome::Ok(o) if o == c.output => (),
		Outcome::Ok(o) => return bad("identity-changes-output", first_difference(&c.output, &o)),
		o => return bad("identity-changes-output", o.brief())
	}
	let calls = rec.calls.borrow();
	// Streams: once each, with the values of the identification headers
	let streams: Vec<&Call> = calls.iter().filter(|c| matches!(c, Call::Frequency(_))).collect();
	let want: Vec<Call> = c.ins.iter().map(|s| Call::Frequency(s.ident.rate)).collect();
	if streams != want.iter().collect::<Vec<_>>() {
		return bad("frequency-calls", format!("{streams:?} instead of {want:?}"));
	}
	let rates: Vec<&Call> = calls.iter().filter(|c| matches!(c, Call::Bitrates(..))).collect();
	let want: Vec<Call> = c.ins.iter().map(|s| Call::Bitrates(s.ident.br_min as i32, s.ident.br_nom as i32, s.ident.br_max as i32)).collect();
	if rates != want.iter().collect::<Vec<_>>() {
		return bad("bitrate-calls", format!("{rates:?} instead of {want:?}"));
	}
	// Packets
	let serials: Vec<&Call> = calls.iter().filter(|c| matches!(c, Call::Serial(..))).collect();
	let ends: Vec<&Call> = calls.iter().filter(|c| matches!(c, Call::End(..))).collect();
	let positions: Vec<&Call> = calls.iter().filter(|c| matches!(c, Call::Position(..))).collect();
	let mut want_serials = vec![];
	let mut want_ends = vec![];
	for o in &c.outs {
		let n = o.packets.len();
		for k in 0..n {
			want_serials.push(Call::Serial(o.serial, k, k + 1 == n));
			let e = if k + 1 == n {
				2
			} else if k == 0 || k == 2 {
				1
			} else {
				0
			};
			want_ends.push(Call::End(e, k, k + 1 == n));
		}
	}
	if serials != want_serials.iter().collect::<Vec<_>>() {
		return bad("serial-calls", differing(&serials, &want_serials));
	}
	if ends != want_ends.iter().collect::<Vec<_>>() {
		return bad("page-end-calls", differing(&ends, &want_ends));
	}
	if positions.len() != serials.len() {
		return bad("position-calls", format!("{} position calls for {} packets", positions.len(), serials.len()));
	}
	let mut at = 0;
	for (i, o) in c.ins.iter().zip(&c.outs) {
		let n = o.packets.len();
		let sums = gen::running_samples(&o.audio.iter().map(|a| a.info.blocksize).collect::<Vec<_>>());
		let mut offset = None;
		for k in 0..n {
			let Call::Position(g, number, header, last) = positions[at + k] else { unreachable!() };
			if (*number, *header, *last) != (k, k < 3, k + 1 == n) {
				return bad("position-calls", format!("packet {k} of {n}: {:?}", positions[at + k]));
			}
			if k < 3 && *g != 0 {
				return bad("position-calls", format!("header packet {k} has position {g}"));
			}
			if o.packets[k].last_on_page && o.pages[o.packets[k].page].gp != *g {
				return bad("position-calls", format!("packet {k} has position {g}, but its page {}", o.pages[o.packets[k].page].gp));
			}
			if k >= 3 && k + 1 < n {
				let d = g.wrapping_sub(sums[k - 3]);
				if *offset.get_or_insert(d) != d {
					return bad("position-calls", format!("packet {k} has position {g}, which implies another start offset than the packets before"));
				}
			}
		}
		at += n;
		if let Some(d) = offset {
			let allowed = checks::input_granules(i);
			if !allowed.iter().any(|g| d == if c.cfg.ignore_start { 0 } else { g.offset }) {
				return bad("position-calls", format!("the positions imply a start offset of {d}, the input one of {allowed:?}"));
			}
		}
	}
	drop(serials);
	let identity_calls = calls.clone();
	drop(calls);
	// A mangler that changes things
	for _ in 0..2 {
		let mut change = [false; 5];
		for x in &mut change {
			*x = t.chance(1, 2);
		}
		let m = Mangler::new(t.seed(), change);
		let r = remux_mangled(&c.cfg, m.clone(), &c.input);
		cx.evals += 1;
		if *m.calls.borrow() != identity_calls {
			return bad("arguments-depend-on-results", format!("with changes {change:?}, the hooks are called with other values"));
		}
		let returned = m.returned.borrow();
		let pick = |f: &dyn Fn(&Call) -> bool| returned.iter().filter(|c| f(c)).cloned().collect::<Vec<_>>();
		let freq = pick(&|c| matches!(c, Call::Frequency(_)));
		let rates = pick(&|c| matches!(c, Call::Bitrates(..)));
		let sers = pick(&|c| matches!(c, Call::Serial(..)));
		let ends = pick(&|c| matches!(c, Call::End(..)));
		let gps = pick(&|c| matches!(c, Call::Position(..)));
		let mut w = PacketWriter::new(Vec::new());
		let mut k = 0;
		for (n, o) in c.outs.iter().enumerate() {
			for (pn, p) in o.packets.iter().enumerate() {
				let mut d = p.data.clone();
				if pn == 0 {
					let Call::Frequency(f) = freq[n] else { unreachable!() };
					let Call::Bitrates(x, y, z) = rates[n] else { unreachable!() };
					d[12..16].copy_from_slice(&f.to_le_bytes());
					d[16..20].copy_from_slice(&z.to_le_bytes());
					d[20..24].copy_from_slice(&y.to_le_bytes());
					d[24..28].copy_from_slice(&x.to_le_bytes());
				}
				let (Call::Serial(s, ..), Call::End(e, ..), Call::Position(g, ..)) = (&sers[k], &ends[k], &gps[k]) else { unreachable!() };
				w.write_packet(d, *s, end_of(*e), *g as u64).unwrap();
				k += 1;
			}
		}
		let want = w.into_inner();
		match r {
			Outcome::Ok(o) if o == want => (),
			Outcome::Ok(o) => {
				return Err(c
					.explain(Failure::new("decision-not-honored", format!("changes {change:?}: {}", first_difference(&want, &o))))
					.with("mangled.ogg", &o)
					.with("wanted.ogg", &want))
			}
			o => return bad("decision-not-honored", format!("changes {change:?}: {}", o.brief()))
		}
		cx.label_if(change[0] || change[1], "identification changed");
		cx.label_if(change[2], "serials changed");
		cx.label_if(change[3], "page ends changed");
		cx.label_if(change[4], "positions changed");
	}
	cx.nontrivial = c.outs.iter().any(|o| o.packets.len() > 4);
	cx.label_if(c.outs.len() > 1, "several streams");
	cx.sample = Some(c.outs.iter().map(|o| o.describe()).collect::<Vec<_>>().join(" + "));
	Ok(())
}

fn c18_files(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let (n, f) = (t.size(1, 3), t.size(0, 1));
	let p = Profile { wrong_gps: t.chance(1, 4), ..Profile::small() };
	let file = gen::gen_file(t, &p, n, f);
	c18_case(t, cx, ogg::encode_pages(&file.pages), cfg)
}

fn c18_streams(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let s = gen::gen_stream(t, &Profile { max_bits: 2000, ..Profile::default() }, 7);
	c18_case(t, cx, s.encode(), cfg)
}

fn c18_many(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let s = gen::gen_many(t);
	cx.label_if(s.audio.len() > 65_535, "more than 65535 audio packets");
	c18_case(t, cx, s.encode(), cfg)
}

fn c18_other(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let Some((d, _)) = super::wild::wild(t, cx) else { return Ok(()) };
	c18_case(t, cx, d, cfg)
}

fn c18_corpus(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let (name, d) = CORPUS[t.index as usize % VALID];
	cx.label(name);
	let cfg = Cfg::draw(t);
	c18_case(t, cx, d.to_vec(), cfg)
}

// ---- C19

struct PacketResult {
	analyzed: Vec<Option<u16>>,
	optimized: Vec<Option<(Vec<u8>, Option<u16>)>>
}

/// Feeds packets to the packet-level API. `how`: what kind of argument to use for each packet.
fn by_packets(cfg: &Cfg, packets: &[&[u8]], how: &mut dyn FnMut() -> bool) -> Outcome<PacketResult> {
	let settings = cfg.optimizer();
	guard(|| {
		let mut r = PacketResult { analyzed: vec![], optimized: vec![] };
		let mut o = if how() { VorbisOptimizer::new(&settings, packets[0].to_vec()) } else { VorbisOptimizer::new(&settings, packets[0]) }.map_err(|e| e.to_string())?;
		for p in &packets[1..] {
			r.analyzed.push(if how() { o.analyze_packet(p.to_vec()) } else { o.analyze_packet(p) }.map_err(|e| e.to_string())?);
		}
		for p in packets {
			let x = if how() { o.optimize_packet(p.to_vec()) } else { o.optimize_packet(*p) }.map_err(|e| e.to_string())?;
			r.optimized.push(x.map(|(d, b)| (d.into_owned(), b)));
		}
		Ok(r)
	})
}

fn c19_check(cx: &mut Cx, input: &[u8], cfg: &Cfg, s: &model::Stream, out: &Outcome<Vec<u8>>, t: &mut Tape) -> CaseResult {
	let bad = |kind: &str, m: String| Err(explain(Failure::new(kind, m), input, cfg));
	let packets: Vec<&[u8]> = s.packets.iter().map(|p| &p.data[..]).collect();
	let mut rng = Rng::new(t.seed());
	let mode = t.below(3);
	let r = by_packets(cfg, &packets, &mut || match mode {
		0 => false,
		1 => true,
		_ => rng.below(2) == 1
	});
	cx.label(["borrowed", "owned", "mixed"][mode as usize]);
	let (r, out) = match (r, out) {
		(Outcome::Ok(r), Outcome::Ok(o)) => (r, o),
		(Outcome::Err(a), Outcome::Err(b)) if b.ends_with(&a) => {
			cx.label("rejected");
			return Ok(());
		}
		(r, o) => return bad("outcomes-differ", format!("packet by packet {}, remuxer {}", r.brief(), o.brief()))
	};
	let outs = match model::demux(out) {
		Ok(o) if o.len() == 1 => o,
		_ => return bad("output-unreadable", "one stream expected".into())
	};
	let written: Vec<&Vec<u8>> = outs[0].packets.iter().map(|p| &p.data).collect();
	let optimized: Vec<&Vec<u8>> = r.optimized.iter().flatten().map(|(d, _)| d).collect();
	if written != optimized {
		let k = written.iter().zip(&optimized).position(|(a, b)| a != b);
		return bad("packets-differ", format!("{} packets written, {} optimized, first difference at {k:?}", written.len(), optimized.len()));
	}
	for (k, p) in packets.iter().enumerate() {
		let o = &r.optimized[k];
		if k < 3 {
			if o.as_ref().map(|o| o.1) != Some(None) || (k > 0 && r.analyzed[k - 1].is_some()) {
				return bad("header-block-size", format!("header packet {k}: analysis {:?}, optimization {:?}", if k > 0 { r.analyzed[k - 1] } else { None }, o.as_ref().map(|o| o.1)));
			}
			continue;
		}
		let a = &s.audio[k - 3];
		let want = if a.fate == Fate::Dropped { None } else { a.info.blocksize.map(|b| b as u16) };
		if r.analyzed[k - 1] != want {
			return bad("block-size", format!("analysis of audio packet {} ({} bytes): {:?} instead of {want:?}", k - 3, p.len(), r.analyzed[k - 1]));
		}
		let got = o.as_ref().map(|o| o.1);
		if got != want.map(Some) {
			return bad("block-size", format!("optimization of audio packet {}: {got:?} instead of {want:?}", k - 3));
		}
	}
	Ok(())
}

fn c19_case(t: &mut Tape, cx: &mut Cx, input: Vec<u8>, cfg: Cfg) -> CaseResult {
	let s = model::vorbis_streams(&input).expect("a valid stream").remove(0);
	let out = sut::remux(&cfg, &input);
	cx.hash = hash_bytes(&input);
	cx.nontrivial = s.codewords() > 0;
	cx.sample = Some(s.describe());
	cx.label_if(s.audio.iter().any(|a| a.fate == Fate::Dropped), "dropped packets");
	c19_check(cx, &input, &cfg, &s, &out, t)
}

fn c19_streams(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { verify: true, ..Cfg::draw(t) };
	let s = gen::gen_stream(t, &Profile { max_bits: 3000, ..Profile::default() }, 7);
	c19_case(t, cx, s.encode(), cfg)
}

fn c19_many(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { verify: true, ..Cfg::draw(t) };
	let s = gen::gen_many(t);
	cx.label_if(s.audio.len() > 65_535, "more than 65535 audio packets");
	c19_case(t, cx, s.encode(), cfg)
}

fn c19_long(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { verify: true, ..Cfg::draw(t) };
	let s = if t.chance(1, 2) { gen::gen_long_packets(t) } else { gen::gen_wide(t) };
	c19_case(t, cx, s.encode(), cfg)
}

fn c19_other(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { verify: true, ..Cfg::draw(t) };
	let Some((d, _)) = super::wild::wild(t, cx) else { return Ok(()) };
	if model::vorbis_streams(&d).map_or(0, |s| s.len()) != 1 {
		return Ok(());
	}
	c19_case(t, cx, d, cfg)
}

fn c19_corpus(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let (name, d) = CORPUS[t.index as usize % VALID];
	cx.label(name);
	let cfg = Cfg::draw(t);
	if model::vorbis_streams(d).map_or(0, |s| s.len()) != 1 {
		return Ok(());
	}
	c19_case(t, cx, d.to_vec(), cfg)
}

/// Damaged packets fail in both interfaces, at the same packet.
fn c19_damaged(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { verify: true, ..Cfg::draw(t) };
	let s = gen::gen_stream(t, &Profile::small(), 7);
	let mut packets: Vec<Vec<u8>> = vec![s.id_bytes.clone(), s.comment_bytes.clone(), s.setup_bytes.clone()];
	packets.extend(s.audio.iter().map(|a| a.bytes.clone()));
	for _ in 0..t.size(1, 3) {
		let k = t.below(packets.len() as u64) as usize;
		// Not the signature of the first header, which decides whether it is a Vorbis stream
		let from = if k == 0 { 7 } else { 0 };
		let p = &mut packets[k];
		match t.below(3) {
			0 if p.len() > from => {
				let i = t.size(from, p.len() - 1);
				p[i] ^= 1 << t.below(8);
			}
			1 if p.len() > from => {
				let n = t.size(from.max(1), p.len());
				p.truncate(n);
			}
			_ => p.push(t.below(256) as u8)
		}
	}
	let groups: Vec<Vec<(&[u8], i64)>> =
		vec![vec![(&packets[0], 0)], vec![(&packets[1], 0), (&packets[2], 0)], packets[3..].iter().map(|p| (&p[..], 100)).collect()];
	let lay = gen::gen_layout(t, &Profile::small());
	let pages = gen::paginate(t, &groups, &lay, 7);
	let input = ogg::encode_pages(&pages);
	let out = sut::remux(&cfg, &input);
	cx.hash = hash_bytes(&input);
	cx.nontrivial = true;
	cx.sample = Some(format!("{} damaged packets: {}", packets.len(), out.brief()));
	let views: Vec<&[u8]> = packets.iter().map(|p| &p[..]).collect();
	let r = by_packets(&cfg, &views, &mut || false);
	let r2 = by_packets(&cfg, &views, &mut || true);
	cx.label(match r {
		Outcome::Ok(_) => "accepted",
		Outcome::Err(_) => "rejected",
		Outcome::Panic(_) => "panic"
	});
	let same = match (&r, &r2, &out) {
		(Outcome::Ok(a), Outcome::Ok(b), Outcome::Ok(o)) => {
			let o = model::demux(o).map_err(|e| explain(Failure::new("output-unreadable", e), &input, &cfg))?;
			let w: Vec<&Vec<u8>> = o.iter().flat_map(|o| o.packets.iter().map(|p| &p.data)).collect();
			a.analyzed == b.analyzed && a.optimized == b.optimized && w == a.optimized.iter().flatten().map(|(d, _)| d).collect::<Vec<_>>()
		}
		(Outcome::Err(a), Outcome::Err(b), Outcome::Err(o)) => a == b && o.ends_with(a),
		// Judged by C15
		(Outcome::Panic(_), ..) | (_, Outcome::Panic(_), _) | (.., Outcome::Panic(_)) => true,
		_ => false
	};
	if !same {
		return Err(explain(
			Failure::new("outcomes-differ", format!("borrowed packets: {}, owned packets: {}, remuxer: {}", r.brief(), r2.brief(), out.brief())),
			&input,
			&cfg
		));
	}
	Ok(())
}

/// Two optimizers used in turns do not disturb each other.
fn c19_turns(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfgs = [Cfg::draw(t), Cfg::draw(t)];
	let streams = [gen::gen_stream(t, &Profile::small(), 1), gen::gen_stream(t, &Profile::small(), 2)];
	let packets: Vec<Vec<&[u8]>> = streams
		.iter()
		.map(|s| [&s.id_bytes[..], &s.comment_bytes, &s.setup_bytes].into_iter().chain(s.audio.iter().map(|a| &a.bytes[..])).collect())
		.collect();
	let alone: Vec<_> = (0..2).map(|k| by_packets(&cfgs[k], &packets[k], &mut || false)).collect();
	let (Outcome::Ok(a0), Outcome::Ok(a1)) = (&alone[0], &alone[1]) else {
		cx.label("rejected");
		return Ok(());
	};
	let mut rng = Rng::new(t.seed());
	let settings = [cfgs[0].optimizer(), cfgs[1].optimizer()];
	let got = guard(|| {
		let mut o = [
			VorbisOptimizer::new(&settings[0], packets[0][0]).map_err(|e| e.to_string())?,
			VorbisOptimizer::new(&settings[1], packets[1][0]).map_err(|e| e.to_string())?
		];
		let mut at = [0usize; 2];
		let mut got = [vec![], vec![]];
		let total = |k: usize| packets[k].len() * 2 - 1;
		while at[0] < total(0) || at[1] < total(1) {
			let mut k = rng.below(2) as usize;
			if at[k] >= total(k) {
				k = 1 - k;
			}
			let n = packets[k].len();
			if at[k] < n - 1 {
				o[k].analyze_packet(packets[k][1 + at[k]]).map_err(|e| e.to_string())?;
			} else {
				let x = o[k].optimize_packet(packets[k][at[k] - (n - 1)]).map_err(|e| e.to_string())?;
				got[k].push(x.map(|(d, b)| (d.into_owned(), b)));
			}
			at[k] += 1;
		}
		Ok(got)
	});
	cx.hash = hash_bytes(&streams[0].encode()) ^ hash_bytes(&streams[1].encode());
	cx.nontrivial = packets.iter().all(|p| p.len() > 3);
	cx.sample = Some(format!("{} and {} packets in turns", packets[0].len(), packets[1].len()));
	match got {
		Outcome::Ok(g) if g[0] == a0.optimized && g[1] == a1.optimized => Ok(()),
		o => Err(Failure::new("optimizers-interfere", o.brief()).with("a.ogg", &streams[0].encode()).with("b.ogg", &streams[1].encode()))
	}
}

// ---- C25

fn c25_case(cx: &mut Cx, inputs: &[Vec<u8>]) -> CaseResult {
	let wasm = optivorbis::wasm_bindings_remuxer();
	let lib = OggToOgg::new_with_defaults();
	for d in inputs {
		let want = guard(|| lib.remux(Cursor::new(&d[..]), Vec::new()).map_err(|e| e.to_string()));
		cx.label(if want.is_ok() { "accepted" } else { "rejected" });
		for engine in [false, true] {
			let got = if engine { variants::remux_in_webassembly(d) } else { guard(|| wasm(d).map(|b| b.into_vec())) };
			cx.evals += 1;
			let name = if engine { "bindings in a WebAssembly engine" } else { "bindings" };
			let bad = |m: String| Err(Failure::new("bindings-differ", m).with("input.ogg", d));
			match (&got, &want) {
				(Outcome::Ok(g), Outcome::Ok(w)) => {
					let (Ok(a), Ok(b)) = (without_serials(g), without_serials(w)) else {
						if g == w {
							continue;
						}
						return bad(format!("{name}: the output is unreadable"));
					};
					if a.0 != b.0 || a.1.len() != b.1.len() {
						return bad(format!("{name}: outputs differ apart from serials: {}", first_difference(w, g)));
					}
				}
				(Outcome::Err(a), Outcome::Err(b)) if a == b => (),
				(Outcome::Panic(_), Outcome::Panic(_)) => (),
				(o, _) if engine && variants::platform_limit(o) => cx.label("too big for 32 bits"),
				// WebAssembly is built as usual, where overflows go unnoticed
				(_, Outcome::Panic(_)) if engine => cx.label("the default build panics"),
				_ => return bad(format!("{name} {}, library {}", got.brief(), want.brief()))
			}
		}
	}
	cx.hash = inputs.iter().fold(0, |h, d| h.rotate_left(9) ^ hash_bytes(d));
	cx.nontrivial = true;
	cx.sample = Some(format!("{} inputs of {:?} bytes", inputs.len(), inputs.iter().map(|d| d.len()).collect::<Vec<_>>()));
	Ok(())
}

fn c25_files(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let n = t.size(1, 4);
	let inputs: Vec<Vec<u8>> = (0..n)
		.map(|_| match t.weighted(&[4, 2, 1]) {
			0 => any_input(t),
			1 => {
				let (n, f) = (t.size(0, 4), t.size(0, 2));
				let p = Profile { wrong_gps: t.chance(1, 4), ..Profile::small() };
				ogg::encode_pages(&gen::gen_file(t, &p, n, f).pages)
			}
			_ => gen::gen_stream(t, &Profile { max_bits: 2000, ..Profile::default() }, 5).encode()
		})
		.collect();
	c25_case(cx, &inputs)
}

fn c25_corpus(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let (name, d) = CORPUS[t.index as usize];
	cx.label(name);
	c25_case(cx, &[d.to_vec()])
}

/// The library's own randomized serials are random in the bindings as well.
fn c25_serials(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let wasm = optivorbis::wasm_bindings_remuxer();
	let n = t.size(1, 3);
	let d = ogg::encode_pages(&gen::gen_file(t, &Profile::small(), n, 0).pages);
	cx.hash = hash_bytes(&d);
	cx.nontrivial = true;
	cx.sample = Some(format!("{} bytes, eight times", d.len()));
	for engine in [false, true] {
		let mut seen = vec![];
		for _ in 0..4 {
			let o = if engine { variants::remux_in_webassembly(&d) } else { guard(|| wasm(&d).map(|b| b.into_vec())) };
			let Outcome::Ok(o) = o else {
				cx.label("rejected");
				return Ok(());
			};
			let Ok((_, mut s)) = without_serials(&o) else { return Err(Failure::new("output-unreadable", "").with("input.ogg", &d)) };
			seen.push(s[0]);
			let k = s.len();
			s.sort();
			s.dedup();
			if s.len() != k {
				return Err(Failure::new("serials-not-distinct", format!("{s:?}")).with("input.ogg", &d));
			}
		}
		if seen.iter().all(|s| *s == seen[0]) {
			return Err(Failure::new("serials-not-random", format!("{seen:?}")).with("input.ogg", &d));
		}
	}
	Ok(())
}

pub fn props() -> Vec<Prop> {
	vec![
		Prop {
			id: "C16",
			level: "fault_enumeration",
			rule: "every read, seek, write and flush operation of runs over generated files fails once or from then on, with several error kinds, write operations also by accepting nothing or only a part; sampled operations of runs over real files; sinks of every size; interrupted and short operations; non-trivial: a distinct fault point of an accepted file",
			assumptions: &["an error of kind UnexpectedEof is indistinguishable from the end of the source, so it is not injected"],
			campaigns: vec![
				campaign("every-operation", 700, 10_000, c16_every_operation),
				campaign("corpus", 60, 1_000, c16_corpus),
				campaign("full-sink", 600, 8_000, c16_full),
				campaign("interrupted", 8_000, 80_000, c16_interrupted)
			]
		},
		Prop {
			id: "C18",
			level: "exploration",
			rule: "files of 1 to 3 generated streams, real files and streams of over 65,536 packets, remuxed with a recording mangler and with ones that change any combination of frequency, bitrates, serials, page ends and granule positions; non-trivial: a stream has more than one audio packet",
			assumptions: &["the ogg crate's PacketWriter defines what a combination of packet, serial, page end and granule position looks like in the file"],
			campaigns: vec![
				enumeration("corpus", VALID as u64 * 8, c18_corpus),
				campaign("files", 8_000, 80_000, c18_files),
				campaign("streams", 6_000, 60_000, c18_streams),
				campaign("many-packets", 24, 400, c18_many),
				campaign("other-files", 6_000, 60_000, c18_other)
			]
		},
		Prop {
			id: "C19",
			level: "exploration",
			rule: "packets of generated, real and damaged streams through the packet-level interface with borrowed, owned and mixed arguments, two optimizers in turns, streams of over 65,536 packets and of packets of over a megabyte; non-trivial: codewords are decoded, or packets are damaged",
			assumptions: &[],
			campaigns: vec![
				enumeration("corpus", VALID as u64 * 8, c19_corpus),
				campaign("streams", 12_000, 120_000, c19_streams),
				campaign("many-packets", 24, 400, c19_many),
				campaign("largest", 100, 1_500, c19_long),
				campaign("other-files", 8_000, 80_000, c19_other),
				campaign("damaged", 12_000, 120_000, c19_damaged),
				campaign("turns", 5_000, 50_000, c19_turns)
			]
		},
		Prop {
			id: "C25",
			level: "exploration",
			rule: "sequences of generated, damaged and random inputs and real files through one instance of the bindings compiled natively, one of the bindings in a WebAssembly engine (node), and one of the library with default settings; non-trivial: all",
			assumptions: &["the glue code that wasm-bindgen generates around the exported functions (not installed here) is replaced by an equivalent"],
			campaigns: vec![
				enumeration("corpus", 11, c25_corpus),
				campaign("files", 4_000, 60_000, c25_files),
				campaign("serials", 2_000, 20_000, c25_serials)
			]
		}
	]
}
