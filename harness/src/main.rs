mod audio;
mod bitprog;
mod bits;
mod checks;
mod crash;
mod engine;
mod gen;
mod huff;
mod io {
	pub use std::io::{Error, ErrorKind, Read, Result, Write};
}
mod known;
mod model;
mod ogg;
mod props;
mod sut;
mod vorbis;

use engine::*;
use std::sync::Mutex;
use std::time::Instant;

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	sut::install_panic_hook();
	if args.first().map(|s| &s[..]) == Some("--child") {
		std::process::exit(props::child::main(&args[1..]));
	}
	// The environment must not influence in-process runs
	std::env::remove_var("SOURCE_DATE_EPOCH");
	match args.first().map(|s| &s[..]) {
		Some("run") if args.len() == 2 => {
			let p = property(&args[1]);
			std::process::exit(crash::supervise(&p, seed()));
		}
		Some("run-here") if args.len() == 2 => {
			if let Ok(s) = std::env::var("OVVERIF_STATUS") {
				crash::watch(&s);
			}
			run(&args[1]);
		}
		Some("--replay") if args.len() == 2 => {
			let code = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay-here", &args[1]]).status().expect("child process").code();
			let code = match code {
				Some(c @ (77 | 79)) => {
					println!("the code under test {}", if c == 77 { "aborted" } else { "does not return" });
					let text = std::fs::read_to_string(&args[1]).unwrap_or_default();
					println!("VIOLATION property={} replay={}", text.lines().find_map(|l| l.strip_prefix("property=")).unwrap_or(""), args[1]);
					1
				}
				c => c.unwrap_or(6)
			};
			std::process::exit(code);
		}
		Some("replay-here") if args.len() == 2 => {
			log_tape();
			crash::probe();
			replay(&args[1]);
		}
		Some("case") if args.len() == 5 => {
			log_tape();
			crash::probe();
			let p = property(&args[1]);
			let c = p.campaigns.iter().find(|c| c.name == args[2]).expect("known campaign");
			let (index, seed) = (args[3].parse().unwrap(), args[4].parse().unwrap());
			let mut t = Tape::random(mix(seed, p.id, c.name, index), index);
			if let Err(f) = engine::run_one(c.run, &mut t, &mut Cx::default()) {
				println!("failure [{}] {}", f.kind, f.msg);
				std::process::exit(1);
			}
		}
		Some("list") => {
			for p in props::all() {
				println!("{} {}", p.id, p.campaigns.iter().map(|c| format!("{}({}/{})", c.name, c.quick, c.thorough)).collect::<Vec<_>>().join(" "));
			}
		}
		_ => {
			eprintln!("usage: ovverif run <property> | --replay <file> | list");
			std::process::exit(2);
		}
	}
}

fn property(id: &str) -> Prop {
	props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
		eprintln!("unknown property {id}");
		std::process::exit(2);
	})
}

fn seed() -> u64 {
	std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}

pub fn tier() -> &'static str {
	match std::env::var("VERIF_TIER").as_deref() {
		Ok("thorough") => "thorough",
		_ => "quick"
	}
}

fn log_tape() {
	if let Ok(f) = std::env::var("OVVERIF_TAPE") {
		let _ = TAPE_LOG.set(std::fs::File::create(f).expect("tape log"));
	}
}

pub fn verif_dir() -> String {
	std::env::var("OVVERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn watchdog() {
	std::thread::spawn(|| loop {
		std::thread::sleep(std::time::Duration::from_secs(5));
		for (_, (c, i, at)) in CURRENT_CASE.lock().unwrap().iter() {
			if at.is_some_and(|a| a.elapsed().as_secs() > 400) {
				eprintln!("watchdog: case {c} #{i} takes too long; no verdict");
				std::process::exit(4);
			}
		}
	});
}

fn run(id: &str) {
	let start = Instant::now();
	let (seed, tier) = (seed(), tier());
	let p = property(id);
	watchdog();
	known::print(id);
	let only = std::env::var("OVVERIF_CAMPAIGN").ok();
	let scale: f64 = std::env::var("OVVERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
	// Work is fixed; the clock only stops a run on a machine that is much slower than expected
	let deadline = start + std::time::Duration::from_secs(std::env::var("OVVERIF_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(600));
	let totals = Mutex::new(Totals::default());
	let mut found = None;
	let mut counts = vec![];
	for (ci, c) in p.campaigns.iter().enumerate() {
		if only.as_ref().is_some_and(|o| o != c.name) {
			continue;
		}
		let n = if tier == "thorough" { c.thorough } else { c.quick };
		let n = if c.exhaustive { n } else { (n as f64 * scale).ceil() as u64 };
		let at = Instant::now();
		let (f, done) = run_campaign(&p, ci, n, seed, &totals, deadline);
		found = f;
		let cut = if done < n && found.is_none() { format!(" of {n}, stopped by the clock") } else { String::new() };
		counts.push(format!("{}: {} cases{cut} in {:.1} s", c.name, done, at.elapsed().as_secs_f64()));
		println!("{id} {}", counts.last().unwrap());
		if found.is_some() {
			break;
		}
	}
	let t = totals.into_inner().unwrap();
	let mut samples = t.samples;
	samples.sort();
	let mut chosen: Vec<String> = vec![];
	for c in &p.campaigns {
		chosen.extend(samples.iter().map(|s| &s.1).filter(|s| s.starts_with(&format!("{} #", c.name))).take(4).cloned());
	}
	let labels = t.labels.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ");
	let j = format!(
		"{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {}, \"coverage\": {{\"evaluations\": {}, \"cases\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"campaigns\": [{}], \"labels\": {{{}}}, \"samples\": [{}]}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
		json_str(p.id),
		json_str(tier),
		seed as i64,
		json_str(p.level),
		t.evals,
		t.cases,
		t.nontrivial.len(),
		json_str(p.rule),
		counts.iter().map(|c| json_str(c)).collect::<Vec<_>>().join(", "),
		labels,
		chosen.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
		p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
		start.elapsed().as_secs_f64(),
		found.is_some() as u8
	);
	let dir = verif_dir();
	let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
	let ev = format!("{dir}/evidence/{id}.json");
	if let Err(e) = std::fs::write(&ev, j) {
		eprintln!("cannot write {ev}: {e}");
		std::process::exit(5);
	}
	println!(
		"{id} {tier} seed {seed}: {} evaluations, {} distinct non-trivial, {:.1} s, longest call {} ms",
		t.evals,
		t.nontrivial.len(),
		start.elapsed().as_secs_f64(),
		crash::longest_call()
	);
	if let Some(f) = found {
		let out = crash::out_dir(&p, &f, seed);
		let path = format!("{out}/replay.txt");
		let c = p.campaigns.iter().find(|c| c.name == f.campaign).unwrap();
		crash::write_replay(&path, &p, c, f.index, &f.tape, &f.failure);
		for (name, data) in &f.failure.artifacts {
			let _ = std::fs::write(format!("{out}/{name}"), data);
		}
		println!("failure [{}] {}", f.failure.kind, f.failure.msg);
		println!("shrunk in {} steps to {} choices; campaign {} case {}", f.shrink_steps, f.tape.len(), f.campaign, f.index);
		println!("VIOLATION property={id} replay={path}");
		std::process::exit(1);
	}
}

fn replay(path: &str) {
	let text = std::fs::read_to_string(path).expect("readable replay file");
	let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
	let p = props::all().into_iter().find(|p| p.id == get("property")).expect("known property");
	let c = p.campaigns.iter().find(|c| c.name == get("campaign")).expect("known campaign");
	let tape: Vec<u64> = get("tape").split(',').filter(|s| !s.is_empty()).map(|v| v.parse().unwrap()).collect();
	let mut t = Tape::replay(tape, get("index").parse().unwrap());
	let mut cx = Cx::default();
	match engine::run_one(c.run, &mut t, &mut cx) {
		Ok(()) => println!("replay of {path}: the property holds"),
		Err(f) => {
			println!("failure [{}] {}", f.kind, f.msg);
			let dir = std::path::Path::new(path).parent().unwrap();
			for (name, data) in &f.artifacts {
				let _ = std::fs::write(dir.join(name), data);
			}
			println!("VIOLATION property={} replay={path}", p.id);
			std::process::exit(1);
		}
	}
}
