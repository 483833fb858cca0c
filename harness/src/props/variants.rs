//! C26: other builds of the library, in worker processes.

use super::common::*;
use super::container::{any_input, first_difference, without_serials};
use super::robust;
use crate::engine::*;
use crate::gen::{self, Profile};
use crate::ogg;
use crate::sut::{self, Cfg, Outcome};
use super::validity::biggest_tree;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, Command, Stdio};

/// Builds with debug assertions, without optional features, and for WebAssembly.
pub const DEBUG: usize = 0;
pub const PLAIN: usize = 1;
pub const WASM: usize = 2;
const NAMES: [&str; 3] = ["build with debug assertions", "build without optional features", "build for WebAssembly"];

struct Worker {
	child: Child
}

impl Worker {
	fn start(which: usize) -> Worker {
		let v = crate::verif_dir();
		let dir = std::env::var("OVVERIF_VARIANTS").unwrap_or_else(|_| format!("{v}/.target"));
		let mut c = match which {
			DEBUG => Command::new(format!("{dir}/checked/checked/ovvariant")),
			PLAIN => Command::new(format!("{dir}/plain/release/ovvariant")),
			_ => {
				let mut c = Command::new("node");
				// Without guard regions, which take gigabytes of address space
				c.args(["--disable-wasm-trap-handler", &format!("{}/src/wasm.mjs", std::env::var("OVVERIF_VARIANTS_SRC").unwrap_or_else(|_| format!("{v}/harness_variants")))]);
				c.arg(format!("{dir}/wasm/wasm32-unknown-unknown/narrow/ovvariant.wasm"));
				c
			}
		};
		if which == PLAIN {
			// A build without the feature has to ignore it
			c.env("SOURCE_DATE_EPOCH", "invalid");
		} else {
			c.env_remove("SOURCE_DATE_EPOCH");
		}
		let child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| panic!("cannot start the {}: {e}", NAMES[which]));
		Worker { child }
	}
	fn run(&mut self, request: &[u8]) -> std::io::Result<Vec<u8>> {
		let i = self.child.stdin.as_mut().unwrap();
		i.write_all(&(request.len() as u32).to_le_bytes())?;
		i.write_all(request)?;
		i.flush()?;
		let o = self.child.stdout.as_mut().unwrap();
		let mut n = [0u8; 4];
		o.read_exact(&mut n)?;
		let mut d = vec![0u8; u32::from_le_bytes(n) as usize];
		o.read_exact(&mut d)?;
		Ok(d)
	}
}

impl Drop for Worker {
	fn drop(&mut self) {
		drop(self.child.stdin.take());
		let _ = self.child.wait();
	}
}

thread_local! {
	static WORKERS: RefCell<[Option<Worker>; 3]> = const { RefCell::new([const { None }; 3]) };
}

fn ask(which: usize, request: &[u8]) -> Outcome<Vec<u8>> {
	let call = crate::crash::call();
	let r = WORKERS.with(|w| {
		let w = &mut w.borrow_mut()[which];
		match w.get_or_insert_with(|| Worker::start(which)).run(request) {
			Ok(r) => Ok(r),
			Err(_) => {
				let mut dead = w.take().unwrap();
				let status = dead.child.wait().map(|s| s.to_string()).unwrap_or_default();
				Err(format!("the process ended: {status}"))
			}
		}
	});
	drop(call);
	match r {
		Ok(r) => {
			let text = || String::from_utf8_lossy(&r[1..]).into_owned();
			match r[0] {
				0 => Outcome::Ok(r[1..].to_vec()),
				1 => Outcome::Err(text()),
				2 => Outcome::Panic(text()),
				_ => panic!("{}: {}", NAMES[which], text())
			}
		}
		Err(e) => Outcome::Panic(e)
	}
}

/// Remuxes with another build.
pub fn remux_in(which: usize, cfg: &Cfg, input: &[u8]) -> Outcome<Vec<u8>> {
	let mut r = vec![cfg.randomize as u8, cfg.ignore_start as u8, cfg.err_none as u8, cfg.verify as u8];
	r.extend(cfg.serial.to_le_bytes());
	r.extend([cfg.vendor as u8, cfg.delete_comments as u8]);
	r.extend(input);
	ask(which, &r)
}

/// Remuxes with the bindings in a WebAssembly engine.
pub fn remux_in_webassembly(input: &[u8]) -> Outcome<Vec<u8>> {
	let mut r = vec![2; 10];
	r.extend(input);
	ask(WASM, &r)
}

/// Whether a 32-bit build may give this result instead.
pub fn platform_limit<T>(o: &Outcome<T>) -> bool {
	matches!(o, Outcome::Err(e) if e.contains("Too big value for this platform"))
}

fn show(o: &Outcome<Vec<u8>>) -> String {
	match o {
		Outcome::Ok(d) => format!("{} bytes", d.len()),
		e => e.brief()
	}
}

/// `regular`: the input has no irregularities, which builds with debug assertions may reject.
fn case(cx: &mut Cx, input: &[u8], cfg: &Cfg, regular: bool) -> CaseResult {
	cx.hash = hash_bytes(input);
	if let Ok(s) = crate::model::vorbis_streams(input) {
		cx.label_if(s.len() > 1, "several streams");
	}
	let want = sut::remux(cfg, input);
	if let Outcome::Panic(_) = want {
		// For other properties to judge
		cx.label("the default build panics");
		return Ok(());
	}
	cx.label(match &want {
		Outcome::Ok(o) if !o.is_empty() => "accepted",
		Outcome::Ok(_) => "empty output",
		_ => "rejected"
	});
	cx.nontrivial = matches!(&want, Outcome::Ok(o) if !o.is_empty());
	cx.sample = Some(format!("{} bytes: {}", input.len(), show(&want)));
	let neutral = |o: &Outcome<Vec<u8>>| match o {
		Outcome::Ok(o) => Outcome::Ok(cfg.neutral(o.clone())),
		e => e.clone()
	};
	let want = neutral(&want);
	for which in [DEBUG, PLAIN, WASM] {
		let got = neutral(&remux_in(which, cfg, input));
		cx.evals += 1;
		if got == want {
			continue;
		}
		match (which, &got) {
			(DEBUG, Outcome::Err(_)) if !regular || !want.is_ok() => {
				cx.label("only builds with debug assertions find this error");
				continue;
			}
			(WASM, o) if platform_limit(o) => {
				cx.label("too big for 32 bits");
				continue;
			}
			_ => ()
		}
		let mut f = Failure::new(
			"builds-differ",
			format!("the {} gives {}, the default build {} [settings {cfg:?}]", NAMES[which], show(&got), show(&want))
		)
		.with("input.ogg", input);
		if let (Outcome::Ok(a), Outcome::Ok(b)) = (&want, &got) {
			f.msg += &format!(": {}", first_difference(a, b));
			f = f.with("output-default.ogg", a).with("output-other.ogg", b);
		}
		return Err(f);
	}
	Ok(())
}

fn c26_streams(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw_any(t);
	let p = Profile { wrong_gps: t.chance(1, 4), max_packets: if t.chance(1, 8) { 300 } else { 40 }, ..Profile::default() };
	let s = if t.chance(1, 4) { gen_real(t, &p, 5) } else { gen::gen_stream(t, &p, 5) };
	s.classify(cx);
	case(cx, &s.encode(), &cfg, true)
}

fn c26_files(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw_any(t);
	let (n, f) = (t.size(0, 5), t.size(0, 3));
	let d = ogg::encode_pages(&gen::gen_file(t, &Profile::small(), n, f).pages);
	case(cx, &d, &cfg, true)
}

fn c26_other(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw_any(t);
	let Some((d, _)) = super::wild::wild(t, cx) else { return Ok(()) };
	case(cx, &d, &cfg, false)
}

fn c26_judge(cx: &mut Cx, input: Vec<u8>, start: usize, cfg: Cfg, _: &str) -> CaseResult {
	let d = &input[start..];
	if robust::reader_streams(d, cfg.verify).iter().flat_map(|s| &s.packets).any(|p| p.data.starts_with(b"\x05vorbis") && biggest_tree(&p.data) > 6000) {
		cx.label("skipped: big codebook");
		return Ok(());
	}
	case(cx, d, &cfg, false)
}

fn c26_damaged(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	match t.below(5) {
		0 => robust::any_pages(t, cx, c26_judge),
		1 => robust::any_packets(t, cx, c26_judge),
		2 => robust::any_fields(t, cx, c26_judge),
		3 => robust::any_bytes(t, cx, c26_judge),
		_ => {
			let cfg = Cfg::draw_any(t);
			let d = any_input(t);
			c26_judge(cx, d, 0, cfg, "")
		}
	}
}

/// Sizes at the limits of header fields.
fn c26_largest(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw_any(t);
	let s = match t.below(4) {
		0 => gen::gen_dictionary(t),
		1 => super::validity::big_book_stream(t),
		2 => gen::gen_long_packets(t),
		_ => gen::gen_wide(t)
	};
	s.classify(cx);
	case(cx, &s.encode(), &cfg, true)
}

fn c26_corpus(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let (name, d) = CORPUS[t.index as usize % CORPUS.len()];
	cx.label(name);
	let cfg = Cfg::draw_any(t);
	case(cx, d, &cfg, false)
}

/// Serials are as random in other builds, and without the feature the variable has no effect.
fn c26_serials(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { randomize: true, ..Cfg::draw(t) };
	let n = t.size(1, 3);
	let d = ogg::encode_pages(&gen::gen_file(t, &Profile::small(), n, 0).pages);
	cx.hash = hash_bytes(&d);
	cx.nontrivial = true;
	cx.sample = Some(format!("{} streams, {} bytes", n, d.len()));
	for which in [DEBUG, PLAIN, WASM] {
		let mut seen = vec![];
		for _ in 0..4 {
			let Outcome::Ok(o) = remux_in(which, &cfg, &d) else {
				// Whether it has to be accepted is up to the other campaigns
				cx.label("rejected");
				return case(cx, &d, &cfg, true);
			};
			cx.evals += 1;
			let Ok((_, mut s)) = without_serials(&o) else { return Err(Failure::new("output-unreadable", NAMES[which]).with("input.ogg", &d)) };
			seen.push(s[0]);
			let k = s.len();
			s.sort();
			s.dedup();
			if s.len() != k {
				return Err(Failure::new("serials-not-distinct", format!("{}: {s:?}", NAMES[which])).with("input.ogg", &d));
			}
		}
		if seen.iter().all(|s| *s == seen[0]) {
			return Err(Failure::new("serials-not-random", format!("{}: {seen:?}", NAMES[which])).with("input.ogg", &d));
		}
	}
	Ok(())
}

pub fn props() -> Vec<Prop> {
	vec![Prop {
		id: "C26",
		level: "exploration",
		rule: "generated streams, chains, irregular, damaged and random files, real files and sizes at the limits, remuxed by the harness's build, by builds with debug assertions, without optional features, and for 32-bit WebAssembly (run by node); non-trivial: the default build accepts the file and writes something",
		assumptions: &["setup headers whose codebooks use more than 6000 entries are skipped among damaged files, because building their trees takes quadratic time", "other 32-bit platforms behave like WebAssembly"],
		campaigns: vec![
			enumeration("corpus", CORPUS.len() as u64 * 6, c26_corpus),
			campaign("streams", 2_500, 40_000, c26_streams),
			campaign("files", 2_000, 30_000, c26_files),
			campaign("other-files", 4_000, 50_000, c26_other),
			campaign("damaged", 8_000, 120_000, c26_damaged),
			campaign("largest", 40, 800, c26_largest),
			campaign("serials", 300, 4_000, c26_serials)
		]
	}]
}
