//! Crashes and hangs of the code under test that can not be caught in the process they happen in:
//! aborts (failed allocations, stack overflows, panics while panicking) and calls that never end.
//!
//! The checks run in a child process. When it ends in a call to the code under test, or such a call
//! takes very long, the case is run again alone in a process of its own, with limits on memory and on
//! the processor time of a single call, and only a case that fails there too is reported.

use crate::engine::{self, Campaign, Failure, Found, Prop};
use std::cell::Cell;
use std::fs;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::SeqCst};
use std::time::Instant;

#[allow(non_camel_case_types)]
type int = i32;
#[repr(C)]
struct Timeval(i64, i64);
extern "C" {
	fn signal(sig: int, handler: usize) -> usize;
	fn _exit(code: int) -> !;
	fn write(fd: int, data: *const u8, n: usize) -> isize;
	fn setitimer(which: int, new: *const [Timeval; 2], old: *mut [Timeval; 2]) -> int;
	fn setrlimit(which: int, limits: *const [u64; 2]) -> int;
}
const SIGABRT: int = 6;
const SIGPROF: int = 27;

/// Exit statuses of the child process
const CRASHED: i32 = 77;
const SLOW: i32 = 78;
const HUNG: i32 = 79;

/// A call to the code under test is looked into after this time on the clock...
const SLOW_SECONDS: u64 = 150;
/// ...and considered to never end after this much processor time. Calls take seconds at most.
const HANG_SECONDS: i64 = 60;
const PROBE_MEMORY: u64 = 8 << 30;

thread_local! {
	static IN_CALL: Cell<bool> = const { Cell::new(false) };
	static CASE: Cell<(u64, u64)> = const { Cell::new((u64::MAX, 0)) };
	static SLOT: Cell<usize> = const { Cell::new(0) };
}
static STATUS_FD: AtomicI32 = AtomicI32::new(-1);
static PROBING: AtomicBool = AtomicBool::new(false);
/// When the current call of each worker began (milliseconds, 0: none), and its case
static CALLS: [(AtomicU64, AtomicU64, AtomicU64); 16] = [const { (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)) }; 16];
static LONGEST: AtomicU64 = AtomicU64::new(0);

fn now() -> u64 {
	static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
	START.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// Tells which case the current thread runs.
pub fn case(slot: usize, campaign: u64, index: u64) {
	SLOT.with(|s| s.set(slot));
	CASE.with(|c| c.set((campaign, index)));
	CALLS[slot].1.store(campaign, SeqCst);
	CALLS[slot].2.store(index, SeqCst);
}

/// Marks a call to the code under test.
pub struct Call(bool);

pub fn call() -> Call {
	let outer = IN_CALL.with(|c| c.replace(true));
	if !outer {
		CALLS[SLOT.with(|s| s.get())].0.store(now(), SeqCst);
		if PROBING.load(SeqCst) {
			timer(HANG_SECONDS);
		}
	}
	Call(outer)
}

impl Drop for Call {
	fn drop(&mut self) {
		IN_CALL.with(|c| c.set(self.0));
		if !self.0 {
			let at = CALLS[SLOT.with(|s| s.get())].0.swap(0, SeqCst);
			LONGEST.fetch_max(now().saturating_sub(at), SeqCst);
			if PROBING.load(SeqCst) {
				timer(0);
			}
		}
	}
}

pub fn longest_call() -> u64 {
	LONGEST.load(SeqCst)
}

fn timer(seconds: i64) {
	unsafe {
		setitimer(2, &[Timeval(0, 0), Timeval(seconds, 0)], std::ptr::null_mut());
	}
}

fn report(campaign: u64, index: u64, code: i32) -> ! {
	let mut d = [0u8; 16];
	d[..8].copy_from_slice(&campaign.to_le_bytes());
	d[8..].copy_from_slice(&index.to_le_bytes());
	unsafe {
		write(STATUS_FD.load(SeqCst), d.as_ptr(), 16);
		_exit(code)
	}
}

extern "C" fn aborted(_: int) {
	if IN_CALL.with(|c| c.get()) {
		let (campaign, index) = CASE.with(|c| c.get());
		report(campaign, index, CRASHED);
	}
	// Returning lets abort() end the process as usual
}

extern "C" fn out_of_time(_: int) {
	unsafe { _exit(HUNG) }
}

/// To be called in the child process.
pub fn watch(status: &str) {
	use std::os::fd::IntoRawFd;
	let f = fs::OpenOptions::new().create(true).append(true).open(status).expect("status file");
	STATUS_FD.store(f.into_raw_fd(), SeqCst);
	unsafe {
		signal(SIGABRT, aborted as extern "C" fn(int) as usize);
	}
	now();
	std::thread::spawn(|| loop {
		std::thread::sleep(std::time::Duration::from_secs(1));
		for (at, campaign, index) in &CALLS {
			let t = at.load(SeqCst);
			if t != 0 && now().saturating_sub(t) > SLOW_SECONDS * 1000 {
				eprintln!("a call to the code under test takes more than {SLOW_SECONDS} s");
				report(campaign.load(SeqCst), index.load(SeqCst), SLOW);
			}
		}
	});
}

/// To be called in a process that runs a single case.
pub fn probe() {
	PROBING.store(true, SeqCst);
	unsafe {
		setrlimit(9, &[PROBE_MEMORY, PROBE_MEMORY]);
		signal(SIGPROF, out_of_time as extern "C" fn(int) as usize);
		signal(SIGABRT, aborted as extern "C" fn(int) as usize);
	}
}

pub fn probing() -> bool {
	PROBING.load(SeqCst)
}

fn me() -> Command {
	let mut c = Command::new(std::env::current_exe().unwrap());
	c.stdin(Stdio::null());
	c
}

/// Runs the checks of a property in a child process, and returns the exit status.
pub fn supervise(p: &Prop, seed: u64) -> i32 {
	let dir = format!("{}/out", crate::verif_dir());
	let _ = fs::create_dir_all(&dir);
	let scratch = format!("{dir}/running-{}-{}", p.id, std::process::id());
	let _ = fs::remove_dir_all(&scratch);
	fs::create_dir_all(&scratch).expect("scratch directory");
	let status = format!("{scratch}/status");
	let code = me().args(["run-here", p.id]).env("OVVERIF_STATUS", &status).status().expect("child process").code();
	let r = match code {
		Some(CRASHED | SLOW) => after_crash(p, seed, &scratch),
		Some(c) => c,
		None => 6
	};
	let _ = fs::remove_dir_all(&scratch);
	r
}

fn after_crash(p: &Prop, seed: u64, scratch: &str) -> i32 {
	// The failure that was being shrunk, if any
	if let Ok(line) = fs::read_to_string(format!("{scratch}/status.found")) {
		println!("the code under test crashed while a failure was being shrunk");
		println!("{line}");
		return 1;
	}
	let d = fs::read(format!("{scratch}/status")).unwrap_or_default();
	if d.len() < 16 {
		eprintln!("the process crashed, but not in a known case; no verdict");
		return 6;
	}
	let number = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
	let (campaign, index) = (number(0), number(8));
	let Some(c) = p.campaigns.get(campaign as usize) else {
		eprintln!("the process crashed in no campaign; no verdict");
		return 6;
	};
	println!("{} campaign {} case {index}: the code under test crashed or takes too long; running this case alone", p.id, c.name);
	let log = format!("{scratch}/tape");
	let run = |args: &[&str], dump: Option<&str>| -> Option<(Vec<u64>, Failure)> {
		let _ = fs::remove_file(&log);
		let mut k = me();
		k.args(args).env("OVVERIF_TAPE", &log).stdout(Stdio::null()).stderr(Stdio::null());
		if let Some(d) = dump {
			k.env("OVVERIF_DUMP", d);
		}
		let (kind, msg) = match k.status().expect("child process").code() {
			Some(CRASHED) => ("aborted", "the code under test aborts the process (failed allocation, stack overflow or double panic)"),
			Some(HUNG) => ("endless", "the code under test does not return"),
			_ => return None
		};
		let t = fs::read(&log).unwrap_or_default();
		let tape = t.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
		Some((tape, Failure::new(kind, msg)))
	};
	let Some((tape, failure)) = run(&["case", p.id, c.name, &index.to_string(), &seed.to_string()], None) else {
		eprintln!("the case alone does not crash; no verdict");
		return 6;
	};
	let mut found = Found { campaign: c.name.into(), index, tape, failure, shrink_steps: 0 };
	let file = format!("{scratch}/candidate");
	if found.failure.kind == "aborted" {
		found = engine::shrink_with(found, &|tape| {
			write_replay(&file, p, c, index, tape, &Failure::new("candidate", ""));
			run(&["replay-here", &file], None)
		});
	}
	let out = out_dir(p, &found, seed);
	let path = format!("{out}/replay.txt");
	write_replay(&path, p, c, index, &found.tape, &found.failure);
	run(&["replay-here", &path], Some(&out));
	let dir = crate::verif_dir();
	let _ = fs::create_dir_all(format!("{dir}/evidence"));
	let _ = fs::write(
		format!("{dir}/evidence/{}.json", p.id),
		format!(
			"{{\"property\": \"{}\", \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}]}}, \"assumptions\": [], \"wall_s\": {}, \"violations\": 1}}\n",
			p.id,
			engine::json_str(crate::tier()),
			seed as i64,
			engine::json_str(p.level),
			index + 1,
			1,
			engine::json_str(p.rule),
			engine::json_str(&found.failure.msg),
			now() / 1000
		)
	);
	println!("failure [{}] {}", found.failure.kind, found.failure.msg);
	println!("shrunk in {} steps to {} choices; campaign {} case {}", found.shrink_steps, found.tape.len(), found.campaign, index);
	println!("VIOLATION property={} replay={path}", p.id);
	1
}

pub fn out_dir(p: &Prop, f: &Found, seed: u64) -> String {
	let out = format!("{}/out/{}-{}-{}-{}", crate::verif_dir(), p.id, f.campaign, seed, f.index);
	let _ = fs::remove_dir_all(&out);
	let _ = fs::create_dir_all(&out);
	out
}

pub fn write_replay(path: &str, p: &Prop, c: &Campaign, index: u64, tape: &[u64], f: &Failure) {
	let mut o = format!("property={}\ncampaign={}\nindex={index}\n", p.id, c.name);
	o.push_str(&format!("kind={}\nmessage={}\n", f.kind, f.msg.replace('\n', " | ")));
	o.push_str(&format!("tape={}\n", tape.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")));
	let _ = fs::write(path, o);
}

/// Tells the parent process about a failure before it is shrunk, in case shrinking it crashes.
pub fn announce(p: &Prop, c: &Campaign, f: &Found, seed: u64) {
	let Ok(status) = std::env::var("OVVERIF_STATUS") else { return };
	let out = out_dir(p, f, seed);
	let path = format!("{out}/replay.txt");
	write_replay(&path, p, c, f.index, &f.tape, &f.failure);
	for (name, data) in &f.failure.artifacts {
		let _ = fs::write(format!("{out}/{name}"), data);
	}
	let _ = fs::write(format!("{status}.found"), format!("failure [{}] {}\nVIOLATION property={} replay={path}", f.failure.kind, f.failure.msg.replace('\n', " | "), p.id));
}
