//! A small property-based testing engine: every random choice of a case is drawn from a `Tape`,
//! which records it, so a failing case can be shrunk and replayed as a list of numbers.

use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
	pub fn new(seed: u64) -> Self {
		Rng(seed)
	}
	pub fn next(&mut self) -> u64 {
		// splitmix64
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: u64) -> u64 {
		if n <= 1 {
			0
		} else {
			((self.next() as u128 * n as u128) >> 64) as u64
		}
	}
}

pub fn hash_bytes(data: &[u8]) -> u64 {
	let mut h = 0xcbf2_9ce4_8422_2325u64;
	for chunk in data.chunks(8) {
		let mut v = 0u64;
		for (i, b) in chunk.iter().enumerate() {
			v |= (*b as u64) << (8 * i);
		}
		h = (h ^ v ^ ((chunk.len() as u64) << 56)).wrapping_mul(0x0000_0100_0000_01B3);
		h ^= h >> 29;
	}
	h
}

/// Where the choices of the case are written as they are made, in processes that may crash
pub static TAPE_LOG: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

pub struct Tape {
	replay: Option<Vec<u64>>,
	pos: usize,
	pub rec: Vec<u64>,
	rng: Rng,
	/// Index of the case within its campaign; enumerations derive the case from it.
	pub index: u64
}

impl Tape {
	pub fn random(seed: u64, index: u64) -> Self {
		Tape { replay: None, pos: 0, rec: vec![], rng: Rng::new(seed), index }
	}
	pub fn replay(values: Vec<u64>, index: u64) -> Self {
		Tape { replay: Some(values), pos: 0, rec: vec![], rng: Rng::new(0), index }
	}
	/// A uniformly random number in [0, n); 0 is the simplest choice. n = 0 means the full range.
	pub fn below(&mut self, n: u64) -> u64 {
		let v = match &self.replay {
			Some(values) => {
				let v = values.get(self.pos).copied().unwrap_or(0);
				self.pos += 1;
				if n != 0 && v >= n {
					n - 1
				} else {
					v
				}
			}
			None => {
				if n == 0 {
					self.rng.next()
				} else {
					self.rng.below(n)
				}
			}
		};
		self.rec.push(v);
		if let Some(f) = TAPE_LOG.get() {
			let mut f: &std::fs::File = f;
			std::io::Write::write_all(&mut f, &v.to_le_bytes()).expect("tape log");
		}
		v
	}
	pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
		assert!(lo <= hi);
		if lo == 0 && hi == u64::MAX {
			self.below(0)
		} else {
			lo + self.below(hi - lo + 1)
		}
	}
	pub fn size(&mut self, lo: usize, hi: usize) -> usize {
		self.range(lo as u64, hi as u64) as usize
	}
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.below(den) >= den - num
	}
	pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
		&items[self.below(items.len() as u64) as usize]
	}
	/// Index chosen with the given weights; index 0 is the simplest.
	pub fn weighted(&mut self, weights: &[u64]) -> usize {
		let total: u64 = weights.iter().sum();
		let mut v = self.below(total);
		for (i, w) in weights.iter().enumerate() {
			if v < *w {
				return i;
			}
			v -= w;
		}
		weights.len() - 1
	}
	/// Number in [lo, hi] biased towards the limits and small values.
	pub fn edge(&mut self, lo: u64, hi: u64) -> u64 {
		match self.weighted(&[4, 3, 2, 1]) {
			0 => self.range(lo, hi.min(lo.saturating_add(7))),
			1 => self.range(lo, hi),
			2 => hi - self.range(0, (hi - lo).min(2)),
			_ => {
				let bits = self.range(0, 63);
				(lo + (1u64 << bits).saturating_sub(self.below(2)).min(hi - lo)).min(hi)
			}
		}
	}
	pub fn seed(&mut self) -> u64 {
		self.below(1 << 32)
	}
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		let seed = self.seed();
		let mut out = vec![0u8; n];
		if seed != 0 {
			let mut r = Rng::new(seed);
			for c in out.chunks_mut(8) {
				let v = r.next().to_le_bytes();
				c.copy_from_slice(&v[..c.len()]);
			}
		}
		out
	}
}

/// What one case found: classification, non-triviality, and its fingerprint.
#[derive(Default)]
pub struct Cx {
	pub evals: u64,
	pub nontrivial: bool,
	pub hash: u64,
	pub labels: BTreeMap<String, u64>,
	pub sample: Option<String>,
	/// Additional distinct non-trivial sub-cases (e.g. fault points), by hash.
	pub extra: Vec<u64>
}

impl Cx {
	pub fn label(&mut self, l: &str) {
		*self.labels.entry(l.to_string()).or_insert(0) += 1;
	}
	pub fn label_n(&mut self, l: &str, n: u64) {
		if n > 0 {
			*self.labels.entry(l.to_string()).or_insert(0) += n;
		}
	}
	pub fn label_if(&mut self, c: bool, l: &str) {
		if c {
			self.label(l)
		}
	}
}

#[derive(Clone, Debug)]
pub struct Failure {
	/// Stable classification of the failure, used to shrink towards the same failure.
	pub kind: String,
	pub msg: String,
	pub artifacts: Vec<(String, Vec<u8>)>
}

impl Failure {
	pub fn new(kind: &str, msg: impl Into<String>) -> Self {
		Failure { kind: kind.into(), msg: msg.into(), artifacts: vec![] }
	}
	pub fn with(mut self, name: &str, data: &[u8]) -> Self {
		if self.artifacts.iter().all(|(n, _)| n != name) {
			self.artifacts.push((name.into(), data.to_vec()));
		}
		self
	}
}

pub type CaseResult = Result<(), Failure>;

pub fn fail<T>(kind: &str, msg: impl Into<String>) -> Result<T, Failure> {
	Err(Failure::new(kind, msg))
}

pub type CaseFn = fn(&mut Tape, &mut Cx) -> CaseResult;

pub struct Campaign {
	pub name: &'static str,
	pub quick: u64,
	pub thorough: u64,
	pub run: CaseFn,
	/// Number of threads (0 = all).
	pub threads: usize,
	/// An enumeration: the number of cases is fixed
	pub exhaustive: bool
}

pub const fn campaign(name: &'static str, quick: u64, thorough: u64, run: CaseFn) -> Campaign {
	Campaign { name, quick, thorough, run, threads: 0, exhaustive: false }
}

/// A campaign whose case is a function of its index.
pub const fn enumeration(name: &'static str, n: u64, run: CaseFn) -> Campaign {
	Campaign { name, quick: n, thorough: n, run, threads: 0, exhaustive: true }
}

pub struct Prop {
	pub id: &'static str,
	pub level: &'static str,
	pub rule: &'static str,
	pub assumptions: &'static [&'static str],
	pub campaigns: Vec<Campaign>
}

#[derive(Default)]
pub struct Totals {
	pub evals: u64,
	pub cases: u64,
	pub nontrivial: HashSet<u64>,
	pub labels: BTreeMap<String, u64>,
	pub samples: Vec<(u64, String)>
}

pub struct Found {
	pub campaign: String,
	pub index: u64,
	pub tape: Vec<u64>,
	pub failure: Failure,
	pub shrink_steps: u64
}

pub fn mix(seed: u64, prop: &str, campaign: &str, index: u64) -> u64 {
	let mut h = hash_bytes(format!("{seed}/{prop}/{campaign}/{index}").as_bytes());
	let mut r = Rng::new(h);
	h = r.next();
	h
}

pub static CURRENT_CASE: Mutex<BTreeMap<u64, (String, u64, Option<Instant>)>> = Mutex::new(BTreeMap::new());

pub fn run_one(f: CaseFn, tape: &mut Tape, cx: &mut Cx) -> CaseResult {
	let logging = tape.chance(1, 8);
	crate::sut::set_logging(logging);
	cx.label_if(logging, "messages logged");
	let r = f(tape, cx);
	crate::sut::set_logging(false);
	r
}

/// Runs up to `n` cases; returns the first failing one, and how many were run.
pub fn run_campaign(p: &Prop, ci: usize, n: u64, seed: u64, totals: &Mutex<Totals>, deadline: Instant) -> (Option<Found>, u64) {
	let (prop, c) = (p.id, &p.campaigns[ci]);
	let next = AtomicU64::new(0);
	let done = AtomicU64::new(0);
	let stop_at = AtomicU64::new(u64::MAX);
	let found: Mutex<Option<Found>> = Mutex::new(None);
	let broken = AtomicBool::new(false);
	let threads = if c.threads == 0 { 8 } else { c.threads };

	std::thread::scope(|s| {
		for t in 0..threads {
			let (next, stop_at, found, broken, done) = (&next, &stop_at, &found, &broken, &done);
			std::thread::Builder::new()
				.stack_size(64 << 20)
				.name(format!("w{t}"))
				.spawn_scoped(s, move || {
					struct Guard<'a>(&'a AtomicBool, bool);
					impl Drop for Guard<'_> {
						fn drop(&mut self) {
							if !self.1 {
								self.0.store(true, Ordering::SeqCst);
							}
						}
					}
					let mut g = Guard(broken, false);
					let mut local = Totals::default();
					loop {
						let i = next.fetch_add(1, Ordering::SeqCst);
						if i >= n || i >= stop_at.load(Ordering::SeqCst) || broken.load(Ordering::SeqCst) || Instant::now() > deadline {
							break;
						}
						CURRENT_CASE.lock().unwrap().insert(t as u64, (c.name.to_string(), i, Some(Instant::now())));
						crate::crash::case(t + 1, ci as u64, i);
						let mut tape = Tape::random(mix(seed, prop, c.name, i), i);
						let mut cx = Cx::default();
						let r = run_one(c.run, &mut tape, &mut cx);
						local.cases += 1;
						done.fetch_add(1, Ordering::SeqCst);
						local.evals += cx.evals.max(1);
						if cx.nontrivial {
							local.nontrivial.insert(cx.hash ^ hash_bytes(c.name.as_bytes()));
						}
						for e in &cx.extra {
							local.nontrivial.insert(*e ^ hash_bytes(c.name.as_bytes()));
						}
						for (k, v) in cx.labels {
							*local.labels.entry(format!("{}: {}", c.name, k)).or_insert(0) += v;
						}
						if cx.nontrivial && i < 400 {
							if let Some(sm) = cx.sample {
								local.samples.push((i, format!("{} #{}: {}", c.name, i, sm)));
							}
						}
						if let Err(failure) = r {
							stop_at.fetch_min(i, Ordering::SeqCst);
							let mut f = found.lock().unwrap();
							if f.as_ref().map_or(true, |x| i < x.index) {
								*f = Some(Found {
									campaign: c.name.into(),
									index: i,
									tape: tape.rec,
									failure,
									shrink_steps: 0
								});
							}
						}
					}
					CURRENT_CASE.lock().unwrap().remove(&(t as u64));
					let mut tt = totals.lock().unwrap();
					tt.cases += local.cases;
					tt.evals += local.evals;
					tt.nontrivial.extend(local.nontrivial);
					for (k, v) in local.labels {
						*tt.labels.entry(k).or_insert(0) += v;
					}
					tt.samples.extend(local.samples);
					g.1 = true;
				})
				.unwrap();
		}
	});
	if broken.load(Ordering::SeqCst) {
		eprintln!("harness error: a worker thread panicked in campaign {}", c.name);
		std::process::exit(3);
	}
	let f = found.into_inner().unwrap();
	let f = f.map(|f| {
		crate::crash::announce(p, c, &f, seed);
		crate::crash::case(0, ci as u64, f.index);
		let index = f.index;
		shrink_with(f, &|tape| {
			let mut t = Tape::replay(tape.to_vec(), index);
			let mut cx = Cx::default();
			match run_one(c.run, &mut t, &mut cx) {
				Err(f) => Some((t.rec, f)),
				Ok(()) => None
			}
		})
	});
	(f, done.into_inner())
}

pub fn shrink_with(mut found: Found, run: &dyn Fn(&[u64]) -> Option<(Vec<u64>, Failure)>) -> Found {
	let start = Instant::now();
	let budget = 3000u64;
	let mut used = 0u64;
	// The tape must reproduce at all
	let kind = found.failure.kind.clone();
	let smaller = |a: &Vec<u64>, b: &Vec<u64>| -> bool {
		(a.len(), a.iter().map(|v| *v as u128).sum::<u128>()) < (b.len(), b.iter().map(|v| *v as u128).sum::<u128>())
	};
	let mut best = found.tape.clone();
	let mut best_failure = found.failure.clone();
	let mut accept = |cand: Vec<u64>, best: &mut Vec<u64>, bf: &mut Failure| -> bool {
		used += 1;
		if used > budget || start.elapsed().as_secs() > 60 {
			return false;
		}
		if let Some((rec, f)) = run(&cand) {
			if f.kind == kind && smaller(&rec, best) {
				*best = rec;
				*bf = f;
				return true;
			}
		}
		false
	};
	let mut progress = true;
	while progress {
		progress = false;
		// Truncation (missing draws read as zero)
		let mut k = best.len() / 2;
		while k > 0 {
			if best.len() > k {
				let cand = best[..best.len() - k].to_vec();
				if accept(cand, &mut best, &mut best_failure) {
					progress = true;
					continue;
				}
			}
			k /= 2;
		}
		// Deleting and zeroing chunks
		let mut size = (best.len() / 4).max(1);
		loop {
			let mut i = 0;
			while i < best.len() {
				let end = (i + size).min(best.len());
				let mut cand = best.clone();
				cand.drain(i..end);
				if accept(cand, &mut best, &mut best_failure) {
					progress = true;
					continue;
				}
				if best[i..end].iter().any(|v| *v != 0) {
					let mut cand = best.clone();
					cand[i..end].fill(0);
					if accept(cand, &mut best, &mut best_failure) {
						progress = true;
					}
				}
				i += size;
			}
			if size == 1 {
				break;
			}
			size = (size / 3).max(1);
		}
		// Minimising single values
		let mut i = 0;
		while i < best.len() {
			let mut lo = 0u64;
			while i < best.len() && lo < best[i] {
				let mid = lo + (best[i] - lo) / 2;
				let mut cand = best.clone();
				cand[i] = mid;
				if accept(cand, &mut best, &mut best_failure) {
					progress = true;
				} else {
					lo = mid + 1;
				}
			}
			i += 1;
		}
		if best.len() > 4000 {
			break;
		}
	}
	found.shrink_steps = used.min(budget);
	found.tape = best;
	found.failure = best_failure;
	found
}

pub fn json_str(s: &str) -> String {
	let mut o = String::from("\"");
	for ch in s.chars() {
		match ch {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\r' => o.push_str("\\r"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c)
		}
	}
	o.push('"');
	o
}

pub fn hex(data: &[u8]) -> String {
	data.iter().map(|b| format!("{b:02x}")).collect()
}
