//! Modes of the harness binary that run as a separate process.

use crate::sut::{self, Cfg, Outcome};
use std::ffi::OsString;
use std::io::{Read, Write};
use std::process::{Command, Stdio};

pub enum Env {
	Unset,
	Set(OsString)
}

fn put(o: &mut Vec<u8>, d: &[u8]) {
	o.extend((d.len() as u64).to_le_bytes());
	o.extend(d);
}

fn take<'a>(d: &mut &'a [u8]) -> &'a [u8] {
	let n = u64::from_le_bytes(d[..8].try_into().unwrap()) as usize;
	let r = &d[8..8 + n];
	*d = &d[8 + n..];
	r
}

/// Remuxes the inputs one after another in a fresh process.
pub fn remux_in_process(cfg: &Cfg, inputs: &[&Vec<u8>], env: Env) -> Vec<Outcome<Vec<u8>>> {
	let mut c = Command::new(std::env::current_exe().unwrap());
	c.args([
		"--child",
		"remux",
		&format!(
			"{},{},{},{},{},{},{}",
			cfg.randomize as u8, cfg.serial, cfg.ignore_start as u8, cfg.err_none as u8, cfg.verify as u8, cfg.vendor, cfg.delete_comments as u8
		)
	]);
	match env {
		Env::Unset => c.env_remove("SOURCE_DATE_EPOCH"),
		Env::Set(v) => c.env("SOURCE_DATE_EPOCH", v)
	};
	let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("child process");
	let mut data = vec![];
	for i in inputs {
		put(&mut data, i);
	}
	let mut stdin = child.stdin.take().unwrap();
	std::thread::scope(|s| {
		s.spawn(move || stdin.write_all(&data).expect("child input"));
		let mut out = vec![];
		child.stdout.take().unwrap().read_to_end(&mut out).unwrap();
		let status = child.wait().unwrap();
		if std::os::unix::process::ExitStatusExt::signal(&status) == Some(6) {
			return inputs.iter().map(|_| Outcome::Panic("the process was aborted".into())).collect();
		}
		assert!(status.success(), "child process failed");
		let mut d = &out[..];
		let mut v = vec![];
		while !d.is_empty() {
			let kind = d[0];
			d = &d[1..];
			let x = take(&mut d);
			v.push(match kind {
				0 => Outcome::Ok(x.to_vec()),
				1 => Outcome::Err(String::from_utf8_lossy(x).into_owned()),
				_ => Outcome::Panic(String::from_utf8_lossy(x).into_owned())
			});
		}
		assert_eq!(v.len(), inputs.len());
		v
	})
}

fn remux(args: &[String]) -> i32 {
	let f: Vec<u64> = args[0].split(',').map(|v| v.parse().unwrap()).collect();
	let cfg = Cfg {
		randomize: f[0] != 0,
		serial: f[1] as u32,
		ignore_start: f[2] != 0,
		err_none: f[3] != 0,
		verify: f[4] != 0,
		vendor: f[5] as usize,
		delete_comments: f[6] != 0
	};
	let mut data = vec![];
	std::io::stdin().read_to_end(&mut data).unwrap();
	let mut d = &data[..];
	let mut out = vec![];
	while !d.is_empty() {
		let i = take(&mut d);
		match sut::remux(&cfg, i) {
			Outcome::Ok(o) => {
				out.push(0);
				put(&mut out, &o);
			}
			Outcome::Err(e) => {
				out.push(1);
				put(&mut out, e.as_bytes());
			}
			Outcome::Panic(e) => {
				out.push(2);
				put(&mut out, e.as_bytes());
			}
		}
	}
	std::io::stdout().write_all(&out).unwrap();
	0
}

pub fn main(args: &[String]) -> i32 {
	match args.first().map(|s| &s[..]) {
		Some("remux") => remux(&args[1..]),
		_ => 2
	}
}
