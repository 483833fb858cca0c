//! C15: arbitrary input.

use super::common::*;
use super::validity::biggest_tree;
use crate::engine::*;
use crate::gen::{self, Profile};
use crate::model;
use crate::ogg::{self, Page, BOS, CONTINUED, EOS};
use crate::sut::{self, Cfg, Outcome};
use optivorbis::Remuxer;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

/// A source and a sink that fail once more data passes than any sound implementation needs.
struct Bounded<T> {
	inner: T,
	left: u64,
	calls: u64
}

impl<T> Bounded<T> {
	fn spend(&mut self, n: u64) -> std::io::Result<()> {
		if self.left < n || self.calls == 0 {
			self.left = 0;
			self.calls = 0;
			return Err(std::io::Error::other("i/o budget exceeded"));
		}
		self.left -= n;
		self.calls -= 1;
		Ok(())
	}
}
impl<T: Read> Read for Bounded<T> {
	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
		let n = self.inner.read(buf)?;
		self.spend(n as u64)?;
		Ok(n)
	}
}
impl<T: Seek> Seek for Bounded<T> {
	fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
		self.spend(0)?;
		self.inner.seek(p)
	}
}
impl<T: Write> Write for Bounded<T> {
	fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
		self.spend(buf.len() as u64)?;
		self.inner.write(buf)
	}
	fn flush(&mut self) -> std::io::Result<()> {
		self.inner.flush()
	}
}

/// Packets of each logical stream as the Ogg reader delivers them, in order of appearance.
pub fn reader_streams(d: &[u8], verify: bool) -> Vec<ogg::Stream> {
	let mut opts = ::ogg::reading::PageParsingOptions::default();
	opts.verify_checksum = verify;
	let mut r = ::ogg::PacketReader::new_with_page_parse_opts(Cursor::new(d), opts);
	let mut out: Vec<ogg::Stream> = vec![];
	while let Ok(Some(p)) = r.read_packet() {
		let serial = p.stream_serial();
		let at = match out.iter().position(|s| s.serial == serial) {
			Some(i) => i,
			None => {
				out.push(ogg::Stream { serial, pages: vec![], packets: vec![] });
				out.len() - 1
			}
		};
		out[at].packets.push(ogg::Pkt { data: p.data, page: 0, last_on_page: false });
	}
	out
}

/// Whether the known finding explains that the output is not accepted: the only invalid audio
/// packets are those that ended early in the input and continue into padding bits.
fn only_early_padding(input: &[u8], output: &[u8], verify: bool) -> bool {
	let ins: Vec<_> = reader_streams(input, verify).into_iter().filter(model::is_vorbis).collect();
	let Ok(outs) = model::demux(output) else { return false };
	if ins.len() != outs.len() {
		return false;
	}
	let mut any = false;
	for (i, o) in ins.into_iter().zip(outs) {
		if o.packets.len() <= 3 {
			// Nothing but (possibly too few) headers, which can't be the reason
			continue;
		}
		let (Ok(i), Ok(o)) = (model::understand(i), model::understand(o)) else { return false };
		let known = crate::checks::early_padding_all(&i, &o);
		for (n, a) in o.audio.iter().enumerate() {
			if matches!(a.fate, crate::audio::Fate::Invalid(_)) {
				if !known.contains(&n) {
					return false;
				}
				any = true;
			}
		}
	}
	any
}

pub fn c15_case(cx: &mut Cx, input: Vec<u8>, start: usize, cfg: Cfg, what: &str) -> CaseResult {
	cx.hash = hash_bytes(&input) ^ start as u64;
	let data = &input[start..];
	let streams = reader_streams(data, cfg.verify);
	if streams.iter().flat_map(|s| &s.packets).any(|p| p.data.starts_with(b"\x05vorbis") && biggest_tree(&p.data) > 6000) {
		cx.label("skipped: big codebook");
		return Ok(());
	}
	let art = |f: Failure, out: &[u8]| {
		let mut f = f.with("input.ogg", &input).with("output.ogg", out);
		f.msg = format!("{} [start {start}; settings {cfg:?}]", f.msg);
		f
	};
	let run = |d: &[u8], start: usize| -> (Outcome<Vec<u8>>, bool) {
		let len = d.len() as u64;
		let mut src = Bounded { inner: Cursor::new(d), left: 4 * len + (1 << 20), calls: 64 * len + 10_000 };
		src.inner.set_position(start as u64);
		let mut out = vec![];
		let mut sink = Bounded { inner: &mut out, left: 64 * len + (4 << 20), calls: 64 * len + 10_000 };
		let o = sut::guard(|| cfg.remuxer().remux(&mut src, &mut sink).map(|_| ()).map_err(|e| e.to_string()));
		let spent = src.calls == 0 || sink.calls == 0;
		match o {
			Outcome::Ok(()) => (Outcome::Ok(out), spent),
			Outcome::Err(e) => (Outcome::Err(e), spent),
			Outcome::Panic(e) => (Outcome::Panic(e), spent)
		}
	};
	let (o, spent) = run(&input, start);
	if spent {
		return Err(art(Failure::new("unbounded", "reads or writes much more than the input justifies"), &[]));
	}
	let out = match o {
		Outcome::Panic(e) => return Err(art(Failure::new("panic", format!("panic: {e}")), &[])),
		Outcome::Err(e) => {
			let class: String = e.chars().take_while(|c| c.is_alphabetic() || *c == ' ').collect();
			cx.label(&format!("Err: {class}"));
			cx.nontrivial = !streams.is_empty();
			cx.sample = Some(format!("{what}; {} bytes; Err({e})", input.len()));
			return Ok(());
		}
		Outcome::Ok(out) => out
	};
	cx.nontrivial = true;
	cx.label(if out.is_empty() { "Ok, empty" } else { "Ok" });
	cx.sample = Some(format!("{what}; {} bytes; Ok({} bytes)", input.len(), out.len()));
	if out.is_empty() {
		if cfg.err_none {
			return Err(art(Failure::new("empty-ok", "Ok without any output, although an error was asked for"), &out));
		}
		return Ok(());
	}
	if let Err(e) = ogg::parse_strict(&out, true) {
		return Err(art(Failure::new("malformed-output", format!("the output is not well-formed: {e}")), &out));
	}
	let (again, spent) = run(&out, 0);
	if spent {
		return Err(art(Failure::new("unbounded", "reads or writes much more than the input justifies, on its own output"), &out));
	}
	match again {
		Outcome::Ok(_) => Ok(()),
		Outcome::Panic(e) => Err(art(Failure::new("panic-again", format!("panic on its own output: {e}")), &out)),
		Outcome::Err(e) => {
			if only_early_padding(data, &out, cfg.verify) && crate::known::listed("C15", "early-padding") {
				cx.label("known finding: padding bits of an early-ended packet are invalid");
				return Ok(());
			}
			Err(art(Failure::new("output-rejected", format!("its own output is rejected: {e}")), &out))
		}
	}
}

fn mutate_bytes(t: &mut Tape, d: &mut Vec<u8>) {
	let n = d.len() as u64;
	match t.weighted(&[4, 3, 2, 2, 2, 2, 1]) {
		0 if n > 0 => {
			for _ in 0..t.range(1, 4) {
				let i = t.below(n) as usize;
				d[i] ^= 1 << t.below(8);
			}
		}
		1 if n > 0 => {
			let i = t.below(n) as usize;
			d[i] = *t.pick(&[0, 1, 0xff, 0x7f, 0x80, b'O', 3, 5]);
		}
		2 => {
			let k = t.range(0, n) as usize;
			d.truncate(k);
		}
		3 => {
			let k = t.size(1, 40);
			let at = t.range(0, n) as usize;
			let b = t.bytes(k);
			d.splice(at..at, b);
		}
		4 if n > 0 => {
			let a = t.below(n) as usize;
			let b = (a + t.size(1, 30)).min(d.len());
			d.drain(a..b);
		}
		5 if n > 0 => {
			// Repeats a part
			let a = t.below(n) as usize;
			let b = (a + t.size(1, 60)).min(d.len());
			let part = d[a..b].to_vec();
			let at = t.range(0, n) as usize;
			d.splice(at..at, part);
		}
		_ => {
			let k = t.size(0, 300);
			let fill = t.chance(1, 3);
			let mut b = t.bytes(k);
			if fill {
				b.fill(*t.pick(&[0u8, 0xff, 255]));
			}
			d.extend(b);
		}
	}
}

fn base_pages(t: &mut Tape) -> (Vec<Page>, &'static str) {
	let p = Profile { underspecified: t.chance(1, 4), ..Profile::small() };
	match t.weighted(&[4, 3, 2, 2]) {
		0 => (gen::gen_file(t, &p, 1, 0).pages, "stream"),
		1 => {
			let (n, f) = (t.size(1, 3), t.size(0, 2));
			(gen::gen_file(t, &p, n, f).pages, "file")
		}
		2 => {
			let d = t.pick(&CORPUS).1;
			let mut pages = ogg::parse_pages(d).unwrap_or_default();
			if pages.is_empty() {
				pages = ogg::parse_pages(CORPUS[5].1).unwrap();
			}
			(pages, "corpus")
		}
		_ => (gen_real(t, &p, 5).pages, "real headers")
	}
}

fn mutate_pages(t: &mut Tape, pages: &mut Vec<Page>) -> &'static str {
	if pages.is_empty() {
		return "nothing";
	}
	let n = pages.len() as u64;
	let i = t.below(n) as usize;
	match t.below(18) {
		0 => {
			pages.remove(i);
			"page removed"
		}
		1 => {
			let at = t.range(0, n) as usize;
			let p = pages[i].clone();
			pages.insert(at, p);
			"page repeated"
		}
		2 => {
			let j = t.below(n) as usize;
			pages.swap(i, j);
			"pages swapped"
		}
		3 => {
			pages[i].flags ^= *t.pick(&[BOS, EOS, CONTINUED, BOS | EOS]);
			"flags changed"
		}
		4 => {
			pages[i].flags = t.below(256) as u8;
			"flags random"
		}
		5 => {
			pages[i].gp = match t.below(6) {
				0 => 0,
				1 => -1,
				2 => i64::MAX,
				3 => i64::MIN,
				4 => pages[i].gp.wrapping_sub(t.range(0, 10_000) as i64),
				_ => t.below(0) as i64
			};
			"granule position changed"
		}
		6 => {
			for p in pages.iter_mut() {
				p.gp = match t.below(4) {
					0 => i64::MAX - t.below(3) as i64,
					1 => i64::MIN + t.below(3) as i64,
					2 => -(t.below(3) as i64),
					_ => t.below(0) as i64
				};
			}
			"granule positions extreme"
		}
		7 => {
			let j = t.below(n) as usize;
			let s = pages[j].serial;
			pages[i].serial = s;
			"serial taken from another page"
		}
		8 => {
			pages[i].serial = t.edge(0, u32::MAX as u64) as u32;
			"serial changed"
		}
		9 => {
			pages[i].seq = t.edge(0, u32::MAX as u64) as u32;
			"sequence number changed"
		}
		10 => {
			// The last packet continues, or no longer
			let p = &mut pages[i];
			match p.segs.last().copied() {
				Some(255) => {
					p.segs.push(0);
					if p.segs.len() > 255 {
						p.segs.truncate(255);
					}
				}
				Some(l) => {
					let grow = 255 - l as usize;
					*p.segs.last_mut().unwrap() = 255;
					p.body.extend(vec![0; grow]);
				}
				None => p.segs.push(0)
			}
			let len: usize = p.segs.iter().map(|s| *s as usize).sum();
			p.body.resize(len, 0);
			"last lacing value changed"
		}
		11 => {
			let p = &mut pages[i];
			p.segs.clear();
			p.body.clear();
			"page emptied"
		}
		12 => {
			let p = &mut pages[i];
			let at = t.range(0, p.segs.len() as u64) as usize;
			if p.segs.len() < 255 {
				p.segs.insert(at, 0);
			}
			"empty packet inserted"
		}
		13 => {
			let p = &mut pages[i];
			if !p.segs.is_empty() {
				let at = t.below(p.segs.len() as u64) as usize;
				p.segs[at] = t.below(256) as u8;
				let len: usize = p.segs.iter().map(|s| *s as usize).sum();
				p.body.resize(len, 0);
			}
			"lacing value changed"
		}
		14 => {
			let p = &mut pages[i];
			if !p.body.is_empty() {
				for _ in 0..t.range(1, 6) {
					let at = t.below(p.body.len() as u64) as usize;
					p.body[at] ^= 1 << t.below(8);
				}
			}
			"body bits flipped"
		}
		15 => {
			// Splits a page
			let p = pages[i].clone();
			let at = t.range(0, p.segs.len() as u64) as usize;
			let len: usize = p.segs[..at].iter().map(|s| *s as usize).sum();
			let cont = at > 0 && p.segs[at - 1] == 255;
			pages[i].segs.truncate(at);
			pages[i].body.truncate(len);
			pages[i].flags &= !EOS;
			let q = Page { flags: p.flags & !(BOS | CONTINUED) | if cont { CONTINUED } else { 0 }, segs: p.segs[at..].to_vec(), body: p.body[len..].to_vec(), ..p };
			pages.insert(i + 1, q);
			"page split"
		}
		16 => {
			let k = t.range(0, n) as usize;
			pages.truncate(k);
			"last pages removed"
		}
		_ => {
			// A second round of everything, perhaps under another serial
			let mut more = pages.clone();
			if t.chance(1, 2) {
				let d = t.range(1, 3) as u32;
				for p in &mut more {
					p.serial = p.serial.wrapping_add(d);
				}
			}
			pages.append(&mut more);
			pages.truncate(400);
			"file repeated"
		}
	}
}

fn draw_cfg(t: &mut Tape) -> Cfg {
	Cfg { randomize: t.chance(1, 20), ..Cfg::draw(t) }
}

/// What to do with an input, the position in it to start at, and settings.
pub type Judge = fn(&mut Cx, Vec<u8>, usize, Cfg, &str) -> CaseResult;

pub fn any_pages(t: &mut Tape, cx: &mut Cx, judge: Judge) -> CaseResult {
	let cfg = draw_cfg(t);
	let (mut pages, base) = base_pages(t);
	let mut what = vec![base];
	for _ in 0..t.range(1, 5) {
		what.push(mutate_pages(t, &mut pages));
	}
	for w in &what[1..] {
		cx.label(w);
	}
	let mut d = ogg::encode_pages(&pages);
	if t.chance(1, 8) {
		mutate_bytes(t, &mut d);
		what.push("bytes");
	}
	let start = if t.chance(1, 10) { t.range(0, d.len() as u64) as usize } else { 0 };
	judge(cx, d, start, cfg, &what.join(", "))
}

pub fn any_packets(t: &mut Tape, cx: &mut Cx, judge: Judge) -> CaseResult {
	let cfg = draw_cfg(t);
	let p = Profile { underspecified: t.chance(1, 4), ..Profile::small() };
	let s = if t.chance(1, 4) { gen_real(t, &p, 5) } else { gen::gen_stream(t, &p, 5) };
	let mut packets = vec![s.id_bytes.clone(), s.comment_bytes.clone(), s.setup_bytes.clone()];
	packets.extend(s.audio.iter().map(|a| a.bytes.clone()));
	let mut what = vec![];
	for _ in 0..t.range(1, 4) {
		let n = packets.len() as u64;
		if n == 0 {
			break;
		}
		let i = if t.chance(1, 2) { t.below(n.min(3)) } else { t.below(n) } as usize;
		match t.weighted(&[8, 1, 1, 1, 1, 1]) {
			5 => {
				// A length or a count, mostly of the comment header
				let i = if t.chance(2, 3) { 1 } else { i }.min(packets.len() - 1);
				let d = &mut packets[i];
				if d.len() >= 11 {
					let v = 11 + u32::from_le_bytes(d[7..11].try_into().unwrap()) as usize;
					let at = match t.below(3) {
						0 => 7,
						1 if v + 4 <= d.len() => v,
						_ => t.size(0, d.len() - 4)
					};
					let old = u32::from_le_bytes(d[at..at + 4].try_into().unwrap());
					let new = match t.below(4) {
						0 => u32::MAX - t.below(8) as u32,
						1 => old.wrapping_add(1),
						2 => 1 << t.below(32),
						_ => t.edge(0, u32::MAX as u64) as u32
					};
					d[at..at + 4].copy_from_slice(&new.to_le_bytes());
				}
				what.push("length changed");
			}
			0 => {
				mutate_bytes(t, &mut packets[i]);
				what.push("packet bytes");
			}
			1 => {
				packets.remove(i);
				what.push("packet removed");
			}
			2 => {
				let p = packets[i].clone();
				let at = t.range(0, n) as usize;
				packets.insert(at, p);
				what.push("packet repeated");
			}
			3 => {
				let j = t.below(n) as usize;
				packets.swap(i, j);
				what.push("packets swapped");
			}
			_ => {
				let k = t.size(0, 200);
				let p = t.bytes(k);
				let at = t.range(0, n) as usize;
				packets.insert(at, p);
				what.push("random packet");
			}
		}
	}
	if packets.is_empty() {
		return Ok(());
	}
	let gps = gen::nominal_gps(&s.audio, 0, 0);
	let all: Vec<(&[u8], i64)> =
		packets.iter().enumerate().map(|(i, p)| (&p[..], if i < 3 { 0 } else { gps.get(i - 3).copied().unwrap_or(7777) })).collect();
	let lay = gen::gen_layout(t, &p);
	let groups = if t.chance(4, 5) {
		vec![all[..1].to_vec(), all[1..all.len().min(3)].to_vec(), all[all.len().min(3)..].to_vec()]
	} else {
		vec![vec![], vec![], all]
	};
	let pages = gen::paginate(t, &groups, &lay, 5);
	judge(cx, ogg::encode_pages(&pages), 0, cfg, &what.join(", "))
}

pub fn any_fields(t: &mut Tape, cx: &mut Cx, judge: Judge) -> CaseResult {
	let cfg = draw_cfg(t);
	let p = Profile { underspecified: t.chance(1, 4), ..Profile::small() };
	let s = if t.chance(1, 6) { gen_real(t, &p, 5) } else { gen::gen_stream(t, &p, 5) };
	let (packets, what) = super::wild::change_fields(t, &s);
	let d = super::wild::pages_of(t, &p, &packets, &s);
	judge(cx, d, 0, cfg, &what)
}

pub fn any_bytes(t: &mut Tape, cx: &mut Cx, judge: Judge) -> CaseResult {
	let cfg = draw_cfg(t);
	let (pages, _) = base_pages(t);
	let mut d = ogg::encode_pages(&pages);
	let what = match t.weighted(&[5, 1, 1]) {
		0 => {
			for _ in 0..t.range(1, 6) {
				mutate_bytes(t, &mut d);
			}
			// With wrong checksums little gets through if they are verified
			"mutated bytes"
		}
		1 => {
			let n = t.size(0, 2000);
			d = t.bytes(n);
			"random bytes"
		}
		_ => {
			let n = t.size(0, 400);
			let mut x = b"OggS\0\x02".to_vec();
			x.extend(t.bytes(n));
			let at = t.range(0, d.len() as u64) as usize;
			d.splice(at..at, x);
			"random page"
		}
	};
	let cfg = Cfg { verify: cfg.verify && t.chance(1, 4), ..cfg };
	let start = if t.chance(1, 5) { t.range(0, d.len() as u64) as usize } else { 0 };
	judge(cx, d, start, cfg, what)
}

fn c15_pages(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	any_pages(t, cx, c15_case)
}

fn c15_packets(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	any_packets(t, cx, c15_case)
}

fn c15_fields(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	any_fields(t, cx, c15_case)
}

fn c15_bytes(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	any_bytes(t, cx, c15_case)
}

pub fn props() -> Vec<Prop> {
	vec![Prop {
		id: "C15",
		level: "exploration",
		rule: "generated files and real files with mutated pages (checksums fixed), packets or bytes, and random bytes, from any start position, with overflow checks on; non-trivial: the Ogg reader delivers at least one packet, or the result is Ok",
		assumptions: &["setup headers whose codebooks use more than 6000 entries are skipped, because building their trees takes quadratic time"],
		campaigns: vec![
			campaign("pages", 60_000, 700_000, c15_pages),
			campaign("packets", 60_000, 700_000, c15_packets),
			campaign("fields", 80_000, 900_000, c15_fields),
			campaign("bytes", 40_000, 500_000, c15_bytes)
		]
	}]
}
