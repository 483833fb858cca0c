//! Runs bitpacking programs with the no-std build of the bitpacker: programs come in on the
//! standard input, what they gave goes to the standard output.

mod io {
	pub use acid_io::{Error, ErrorKind, Read, Result, Write};
}
#[path = "../../harness/src/bitprog.rs"]
mod bitprog;

use bitprog::*;
use std::io::{Read, Write};

fn main() {
	let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
	std::panic::set_hook(Box::new(|_| ()));
	let mut n = [0u8; 4];
	while i.read_exact(&mut n).is_ok() {
		let mut d = vec![0u8; u32::from_le_bytes(n) as usize];
		i.read_exact(&mut d).unwrap();
		let p = Prog::decode(&d);
		let log = std::panic::catch_unwind(|| run(&p)).unwrap_or_else(|_| Log { error: "panic".into(), ..Log::default() });
		let mut r = vec![];
		put_bytes(&mut r, &log.encode());
		o.write_all(&r).unwrap();
		o.flush().unwrap();
	}
}
