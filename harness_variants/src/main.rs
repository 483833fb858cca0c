//! Takes requests on the standard input and gives answers on the standard output.

use std::io::{Read, Write};

fn main() {
	let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
	std::panic::set_hook(Box::new(|_| ()));
	let mut n = [0u8; 4];
	while i.read_exact(&mut n).is_ok() {
		let mut d = vec![0u8; u32::from_le_bytes(n) as usize];
		i.read_exact(&mut d).unwrap();
		let r = std::panic::catch_unwind(|| ovvariant::run(&d)).unwrap_or_else(|e| {
			let mut v = vec![2];
			v.extend(e.downcast_ref::<String>().map(|s| &s[..]).or(e.downcast_ref::<&str>().copied()).unwrap_or("").bytes());
			v
		});
		o.write_all(&(r.len() as u32).to_le_bytes()).unwrap();
		o.write_all(&r).unwrap();
		o.flush().unwrap();
	}
}
