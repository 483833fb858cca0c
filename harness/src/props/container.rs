//! Properties of whole files: C08 to C12 and C17.

use super::common::*;
use crate::checks;
use crate::engine::*;
use crate::gen::{self, Profile};
use crate::model;
use crate::ogg::{self, Page, BOS, EOS};
use crate::sut::{self, Cfg, Outcome};
use crate::vorbis::*;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

fn art(f: Failure, input: &[u8], cfg: &Cfg) -> Failure {
	let mut f = f.with("input.ogg", input);
	f.msg = format!("{} [settings {cfg:?}]", f.msg);
	f
}

/// `Err` if the remuxer does not accept it.
pub fn must(input: &[u8], cfg: &Cfg, what: &str) -> Result<Vec<u8>, Failure> {
	match sut::remux(cfg, input) {
		Outcome::Ok(o) => Ok(o),
		o => Err(art(Failure::new("not-accepted", format!("{what}: {}", o.brief())), input, cfg))
	}
}

pub fn first_difference(a: &[u8], b: &[u8]) -> String {
	match a.iter().zip(b).position(|(x, y)| x != y) {
		Some(i) => format!("{} and {} bytes, first difference at {i}", a.len(), b.len()),
		None => format!("{} and {} bytes, one is a prefix of the other", a.len(), b.len())
	}
}

// ---- C08

fn c08_case(cx: &mut Cx, input: Vec<u8>, comment_bytes: &[u8], cfg: &Cfg) -> CaseResult {
	let out = must(&input, cfg, "a stream with an intact or truncated comment header")?;
	let streams = match model::output_streams(&out) {
		Ok(s) if s.len() == 1 => s,
		other => {
			let n = other.map(|s| s.len());
			return Err(art(Failure::new("output-unreadable", format!("{n:?} streams")), &input, cfg).with("output.ogg", &out));
		}
	};
	let (v, c, whole) = Comments::parse_lenient(comment_bytes);
	cx.label_if(v.is_none(), "vendor string truncated");
	cx.label_if(!whole, "header truncated");
	cx.label_if(c.len() > 20, "more than 20 user comments");
	cx.label(&format!("{} / {}", sut::VENDOR_NAMES[cfg.vendor], if cfg.delete_comments { "delete" } else { "copy" }));
	let w = checks::vendor_after(v.as_deref().unwrap_or(b""), cfg.vendor);
	cx.label_if((cfg.vendor == 1 || cfg.vendor == 2) && Some(&w) == v.as_ref(), "tag already there");
	checks::comments(comment_bytes, &streams[0].packets[1].data, cfg).map_err(|f| art(f, &input, cfg).with("output.ogg", &out))
}

fn c08_generated(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { verify: true, ..Cfg::draw_any(t) };
	let c = gen::gen_comments(t, &Profile::default());
	let mut b = c.encode();
	match t.weighted(&[5, 4, 1, 1, 1]) {
		0 => (),
		1 => {
			let cut = t.edge(0, b.len() as u64) as usize;
			b.truncate(b.len() - cut);
		}
		2 => {
			let n = t.size(1, 400);
			b.extend(t.bytes(n));
		}
		3 => *b.last_mut().unwrap() = t.below(256) as u8,
		_ => {
			// A length or count field that says more (or less) than there is
			let mut fields = vec![7, 11 + c.vendor.len()];
			let mut at = 15 + c.vendor.len();
			for x in &c.comments {
				fields.push(at);
				at += 4 + x.len();
			}
			let f = *t.pick(&fields);
			let old = u32::from_le_bytes(b[f..f + 4].try_into().unwrap());
			let new = match t.below(3) {
				0 => t.edge(0, u32::MAX as u64) as u32,
				1 => old.wrapping_add(1),
				_ => old.wrapping_sub(1)
			};
			b[f..f + 4].copy_from_slice(&new.to_le_bytes());
		}
	}
	let s = gen::tiny_stream(t, b.clone(), 7);
	let input = s.encode();
	cx.hash = hash_bytes(&b) ^ hash_bytes(format!("{cfg:?}").as_bytes());
	cx.nontrivial = b.len() > 16;
	cx.sample = Some(format!("comment header of {} bytes, {} comments before mutation, settings {cfg:?}", b.len(), c.comments.len()));
	c08_case(cx, input, &b, &cfg)
}

/// Comment headers beyond the sizes of ordinary ones.
fn c08_large(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { verify: true, delete_comments: t.chance(1, 8), ..Cfg::draw_any(t) };
	let mut c = gen::gen_comments(t, &Profile::small());
	match t.weighted(&[12, 8, 8, 1]) {
		3 => {
			// Around the size that takes more than 24 bits
			let n = t.edge((1 << 24) - 2, 18 << 20) as usize;
			if t.chance(1, 3) {
				c.vendor = t.bytes(n);
				cx.label("vendor string of 16 MiB or more");
			} else {
				let at = t.range(0, c.comments.len() as u64) as usize;
				c.comments.insert(at, t.bytes(n));
				cx.label("comment of 16 MiB or more");
			}
		}
		0 => {
			let n = t.edge(65_530, 140_000) as usize;
			let long = if t.chance(1, 2) { t.size(0, 12) } else { 0 };
			let text = t.bytes(long + 8);
			c.comments = (0..n).map(|i| text[i % 8..i % 8 + if long == 0 { 0 } else { i % (long + 1) }].to_vec()).collect();
			cx.label("more than 65535 comments");
		}
		1 => {
			let n = t.range(60_000, 1 << 20) as usize;
			c.vendor = t.bytes(n);
			if t.chance(1, 2) {
				c.vendor.extend(b"; OptiVorbis ".iter().chain(env!("CARGO_PKG_VERSION").as_bytes()));
			}
			cx.label("long vendor string");
		}
		_ => {
			for _ in 0..t.size(1, 3) {
				let n = t.range(60_000, 3 << 20) as usize;
				let at = t.range(0, c.comments.len() as u64) as usize;
				c.comments.insert(at, t.bytes(n));
			}
			cx.label("long comments");
		}
	}
	let mut b = c.encode();
	if t.chance(1, 3) {
		let cut = t.edge(0, b.len() as u64) as usize;
		b.truncate(b.len() - cut);
	}
	let s = gen::tiny_stream(t, b.clone(), 7);
	cx.hash = hash_bytes(&b) ^ hash_bytes(format!("{cfg:?}").as_bytes());
	cx.nontrivial = b.len() > 1000;
	cx.sample = Some(format!("comment header of {} bytes, {} comments, settings {cfg:?}", b.len(), c.comments.len()));
	c08_case(cx, s.encode(), &b, &cfg)
}

/// One comment header cut at every byte.
fn c08_truncations(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let mut c = gen::gen_comments(t, &Profile::small());
	c.vendor.truncate(120);
	c.comments.truncate(8);
	for x in &mut c.comments {
		x.truncate(40);
	}
	let b = c.encode();
	let mut cfg = Cfg { verify: true, ..Cfg::draw_any(t) };
	let turn = t.below(10) as usize;
	let mut tape_rest = t.seed();
	cx.sample = Some(format!("comment header of {} bytes cut at every byte", b.len()));
	for cut in 0..=b.len() {
		let k = turn + cut;
		cfg.vendor = k % 5;
		cfg.delete_comments = k / 5 % 4 == 3;
		let mut inner = Tape::random(tape_rest, 0);
		tape_rest = tape_rest.wrapping_add(1);
		let s = gen::tiny_stream(&mut inner, b[..cut].to_vec(), 7);
		c08_case(cx, s.encode(), &b[..cut], &cfg)?;
		cx.evals += 1;
		cx.extra.push(hash_bytes(&b[..cut]) ^ k as u64);
	}
	Ok(())
}

fn c08_corpus(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let (name, d) = CORPUS[t.index as usize % VALID];
	let k = t.index as usize / VALID;
	let cfg = Cfg { vendor: k % 5, delete_comments: k >= 5, ..Cfg::default() };
	cx.label(name);
	let Some(c) = accepted(cx, d.to_vec(), cfg, true)? else { return fail("not-accepted", name) };
	cx.nontrivial = true;
	for (i, o) in c.ins.iter().zip(&c.outs) {
		checks::comments(&i.packets[1].data, &o.packets[1].data, &c.cfg).map_err(|f| c.explain(f))?;
	}
	Ok(())
}

// ---- C09

/// The known finding: an output whose single audio page does not tell its start offset, because
/// the page is the first and the last one. A second run only changes its granule position to the
/// full sample count.
fn single_page_offset(o1: &[u8], o2: &[u8]) -> bool {
	let (Ok(a), Ok(b)) = (ogg::parse_pages(o1), ogg::parse_pages(o2)) else { return false };
	let Ok(streams) = model::output_streams(o1) else { return false };
	if a.len() != b.len() {
		return false;
	}
	let mut any = false;
	for (x, y) in a.iter().zip(&b) {
		if x == y {
			continue;
		}
		let Some(s) = streams.iter().find(|s| s.serial == x.serial) else { return false };
		let audio: Vec<usize> = s.packets[3..].iter().map(|p| p.page).collect();
		let blocks: Vec<Option<u32>> = s.audio.iter().map(|a| a.info.blocksize).collect();
		let sums = gen::running_samples(&blocks);
		let n = audio.len();
		let mut z = y.clone();
		z.gp = x.gp;
		if z != *x || n < 2 || audio.iter().any(|p| *p != audio[0]) && s.pages.iter().filter(|p| p.gp != -1).count() > 3 {
			return false;
		}
		let full = sums[n - 1];
		if x.seq as usize != audio[n - 1] || (sums[n - 2] < x.gp && x.gp <= full) || y.gp != full {
			return false;
		}
		any = true;
	}
	any
}

fn c09_case(cx: &mut Cx, input: Vec<u8>, cfg: Cfg) -> CaseResult {
	let Some(c) = accepted(cx, input, cfg, false)? else { return Ok(()) };
	cx.sample = Some(format!("{} bytes -> {} bytes; {}; settings {:?}", c.input.len(), c.output.len(), c.ins.iter().map(|s| s.describe()).collect::<Vec<_>>().join(" + "), c.cfg));
	cx.nontrivial = c.input != c.output && c.ins.iter().any(|s| s.codewords() > 0);
	cx.label_if(c.ins.len() > 1, "several streams");
	if c.ins.iter().zip(&c.outs).any(|(i, o)| !checks::early_padding_all(i, o).is_empty()) && crate::known::listed("C09", "early-padding") {
		cx.label("known finding: early padding");
		return Ok(());
	}
	if c.ins.is_empty() {
		return Ok(());
	}
	let again = match sut::remux(&c.cfg, &c.output) {
		Outcome::Ok(o) => o,
		o => return Err(c.explain(Failure::new("output-not-accepted", format!("the second run does not accept the output: {}", o.brief()))))
	};
	if again != c.output {
		if crate::known::listed("C09", "single-page-offset") && single_page_offset(&c.output, &again) {
			cx.label("known finding: start offset of a single audio page");
			return Ok(());
		}
		return Err(c
			.explain(Failure::new("not-idempotent", format!("the second run gives a different output: {}", first_difference(&c.output, &again))))
			.with("again.ogg", &again));
	}
	Ok(())
}

fn c09_streams(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let p = Profile { wrong_gps: t.chance(1, 4), early: t.chance(1, 4), ..Profile::default() };
	let s = gen::gen_stream(t, &p, 7);
	c09_case(cx, s.encode(), cfg)
}

fn c09_real(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let s = gen_real(t, &Profile { early: false, ..Profile::default() }, 7);
	c09_case(cx, s.encode(), cfg)
}

fn c09_files(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let (n, f) = (t.size(1, 4), t.size(0, 2));
	let file = gen::gen_file(t, &Profile { early: false, ..Profile::small() }, n, f);
	c09_case(cx, ogg::encode_pages(&file.pages), cfg)
}

fn c09_other(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let Some((d, _)) = super::wild::wild(t, cx) else { return Ok(()) };
	c09_case(cx, d, cfg)
}

fn c09_long(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let s = gen::gen_growing(t);
	c09_case(cx, s.encode(), cfg)
}

fn c09_corpus(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let (name, d) = CORPUS[t.index as usize % VALID];
	let k = t.index as usize / VALID;
	let cfg = Cfg { vendor: k % 5, delete_comments: k / 5 % 2 == 1, ignore_start: k >= 10, ..Cfg::default() };
	cx.label(name);
	c09_case(cx, d.to_vec(), cfg)
}

// ---- C10

/// Concatenation of what the streams give when processed alone.
fn alone(streams: &[gen::VStream], cfg: &Cfg, cx: &mut Cx) -> Option<Vec<u8>> {
	let mut want = vec![];
	for (n, s) in streams.iter().enumerate() {
		let c = Cfg { serial: cfg.serial.wrapping_add(n as u32), ..cfg.clone() };
		match sut::remux(&c, &s.encode()) {
			Outcome::Ok(o) => want.extend(o),
			_ => {
				cx.label("a stream is rejected when alone");
				return None;
			}
		}
	}
	Some(want)
}

fn c10_chain(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let (n, f) = match t.weighted(&[3, 2, 2, 1]) {
		0 => (t.size(1, 3), t.size(0, 2)),
		1 => (1, t.size(1, 4)),
		2 => (t.size(2, 8), 0),
		_ => (t.size(1, 4), t.size(0, 6))
	};
	let mut p = Profile { wrong_gps: t.chance(1, 4), ..Profile::small() };
	if t.chance(1, 8) {
		p.max_packets = 60;
	}
	let mut file = gen::gen_file(t, &p, n, f);
	let nil_eos = n > 1 && t.chance(1, 16);
	if nil_eos {
		// The first stream ends with a page without packets
		let serial = file.streams[0].serial;
		let at = file.pages.iter().rposition(|p| p.serial == serial).unwrap();
		file.pages[at].flags &= !EOS;
		let seq = file.pages[at].seq + 1;
		file.pages.insert(at + 1, Page { flags: EOS, gp: file.pages[at].gp, serial, seq, segs: vec![], body: vec![] });
	}
	let input = ogg::encode_pages(&file.pages);
	cx.hash = hash_bytes(&input);
	cx.nontrivial = n + f > 1;
	cx.sample = Some(format!("{n} Vorbis streams, {f} foreign streams, {} pages, {} bytes; settings {cfg:?}", file.pages.len(), input.len()));
	cx.label(&format!("{} Vorbis streams", if n > 3 { ">3".to_string() } else { n.to_string() }));
	cx.label_if(f > 0, "foreign streams");
	let mut order: Vec<u32> = file.pages.iter().map(|p| p.serial).collect();
	order.dedup();
	cx.label_if(order.len() > n + f, "multiplexed");
	cx.label_if(nil_eos, "stream ends with a page without packets");
	let Some(want) = alone(&file.streams, &cfg, cx) else { return Ok(()) };
	match sut::remux(&cfg, &input) {
		Outcome::Ok(o) if o == want => Ok(()),
		Outcome::Ok(o) => Err(art(
			Failure::new("differs-from-alone", format!("the output differs from the streams' own outputs: {}", first_difference(&want, &o))),
			&input,
			&cfg
		)
		.with("output.ogg", &o)
		.with("wanted.ogg", &want)),
		Outcome::Err(e) if nil_eos && e.contains("grouped") && crate::known::listed("C10", "nil-eos") => {
			cx.label("known finding: EOS flag on a page without packets");
			Ok(())
		}
		o => Err(art(Failure::new("chain-not-accepted", format!("{n} chained Vorbis streams and {f} foreign ones: {}", o.brief())), &input, &cfg))
	}
}

/// Hundreds to tens of thousands of chained streams.
fn c10_many(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let (few, which, pages) = gen::gen_many_streams(t);
	let n = which.len();
	let input = ogg::encode_pages(&pages);
	cx.hash = hash_bytes(&input);
	cx.nontrivial = true;
	cx.sample = Some(format!("{n} Vorbis streams, {} bytes; settings {cfg:?}", input.len()));
	cx.label_if(n > 256, "more than 256 Vorbis streams");
	let mut outs = vec![];
	for s in &few {
		let Some(o) = alone(std::slice::from_ref(s), &cfg, cx) else { return Ok(()) };
		outs.push(ogg::parse_pages(&o).map_err(|e| art(Failure::new("output-unreadable", e), &input, &cfg))?);
	}
	let mut want = vec![];
	for (i, k) in which.iter().enumerate() {
		want.extend(outs[*k].iter().map(|p| Page { serial: cfg.serial.wrapping_add(i as u32), ..p.clone() }));
	}
	let want = ogg::encode_pages(&want);
	match sut::remux(&cfg, &input) {
		Outcome::Ok(o) if o == want => Ok(()),
		Outcome::Ok(o) => Err(art(
			Failure::new("differs-from-alone", format!("{n} streams: the output differs from the streams' own outputs: {}", first_difference(&want, &o))),
			&input,
			&cfg
		)),
		o => Err(art(Failure::new("chain-not-accepted", format!("{n} chained Vorbis streams: {}", o.brief())), &input, &cfg))
	}
}

fn c10_grouped(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let serials = gen::gen_serials(t, 3);
	let a = gen::gen_stream(t, &Profile::small(), serials[0]);
	let b = gen::gen_stream(t, &Profile::small(), serials[1]);
	// The second stream begins at some point before the first one's last page
	let n = a.pages.len();
	let at = t.size(1, n - 1);
	let mut pages: Vec<Page> = a.pages[..at].to_vec();
	pages.push(b.pages[0].clone());
	let rest = gen::interleave(t, a.pages[at..].to_vec(), b.pages[1..].to_vec());
	pages.extend(rest);
	if t.chance(1, 4) {
		let f = gen::gen_foreign(t, serials[2]);
		pages = gen::interleave(t, pages, f);
	}
	let input = ogg::encode_pages(&pages);
	cx.hash = hash_bytes(&input);
	cx.nontrivial = true;
	cx.sample = Some(format!("second Vorbis stream begins after page {at} of {n} of the first"));
	match sut::remux(&cfg, &input) {
		Outcome::Err(_) => Ok(()),
		o => Err(art(Failure::new("grouped-accepted", format!("grouped Vorbis streams are not rejected: {}", o.brief())), &input, &cfg))
	}
}

fn c10_none(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw_any(t);
	let f = t.size(1, 4);
	let mut pages = vec![];
	for s in gen::gen_serials(t, f) {
		let f = gen::gen_foreign(t, s);
		pages = gen::interleave(t, pages, f);
	}
	let input = ogg::encode_pages(&pages);
	cx.hash = hash_bytes(&input) ^ cfg.err_none as u64;
	cx.nontrivial = true;
	cx.sample = Some(format!("{f} foreign streams only, error_on_no_vorbis_streams {}", cfg.err_none));
	match (sut::remux(&cfg, &input), cfg.err_none) {
		(Outcome::Err(e), true) if e.contains("No Vorbis") => Ok(()),
		(Outcome::Ok(o), false) if o.is_empty() => Ok(()),
		(o, _) => Err(art(Failure::new("no-vorbis", format!("a file without Vorbis streams: {}", o.brief())), &input, &cfg))
	}
}

fn c10_corpus(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	// Corpus files chained with each other (with distinct serials) give the chained outputs
	let n = t.size(1, 4);
	let cfg = Cfg::draw(t);
	let mut pages = vec![];
	let mut want = vec![];
	let mut count = 0u32;
	let mut names = vec![];
	for k in 0..n {
		let (name, d) = CORPUS[t.below(10) as usize];
		names.push(name);
		let mut ps = ogg::parse_pages(d).unwrap();
		let mut map: Vec<u32> = vec![];
		for p in &mut ps {
			let i = map.iter().position(|s| *s == p.serial).unwrap_or_else(|| {
				map.push(p.serial);
				map.len() - 1
			});
			p.serial = (k * 16 + i) as u32;
		}
		pages.extend(ps);
		let solo = Cfg { serial: cfg.serial.wrapping_add(count), err_none: false, ..cfg.clone() };
		let o = must(d, &solo, name)?;
		count += ogg::parse_pages(&o).unwrap().iter().filter(|p| p.flags & BOS != 0).count() as u32;
		want.extend(o);
	}
	let input = ogg::encode_pages(&pages);
	cx.hash = hash_bytes(&input);
	cx.nontrivial = n > 1;
	cx.sample = Some(names.join(" + "));
	match sut::remux(&cfg, &input) {
		Outcome::Ok(o) if o == want => Ok(()),
		Outcome::Err(_) if count == 0 && cfg.err_none => Ok(()),
		o => Err(art(Failure::new("chained-corpus", format!("{names:?}: {}", o.brief())), &input, &cfg))
	}
}

/// Files of any kind, chained, give the chained outputs.
fn c10_other(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let n = t.size(2, 4);
	let cfg = Cfg { err_none: false, ..Cfg::draw(t) };
	let mut pages = vec![];
	let mut want = vec![];
	let mut count = 0u32;
	let mut next = t.range(0, 1 << 20) as u32;
	for k in 0..n {
		let Some((d, _)) = super::wild::wild(t, cx) else { return Ok(()) };
		let mut ps = ogg::parse_pages(&d).unwrap();
		let mut map: Vec<u32> = vec![];
		let mut ended: Vec<bool> = vec![];
		for p in &mut ps {
			let i = map.iter().position(|s| *s == p.serial).unwrap_or_else(|| {
				map.push(p.serial);
				ended.push(false);
				map.len() - 1
			});
			ended[i] = p.flags & EOS != 0 && !p.segs.is_empty();
			p.serial = next + i as u32;
		}
		next += map.len() as u32;
		// A stream may only lack its end if it is the file's last one
		if k + 1 < n && ended.contains(&false) {
			cx.label("a stream without an end before the last file");
			return Ok(());
		}
		let solo = Cfg { serial: cfg.serial.wrapping_add(count), ..cfg.clone() };
		let Outcome::Ok(o) = sut::remux(&solo, &ogg::encode_pages(&ps)) else {
			cx.label("a file is rejected when alone");
			return Ok(());
		};
		count += ogg::parse_pages(&o).unwrap().iter().filter(|p| p.flags & BOS != 0).count() as u32;
		want.extend(o);
		pages.extend(ps);
	}
	let input = ogg::encode_pages(&pages);
	cx.hash = hash_bytes(&input);
	cx.nontrivial = true;
	cx.sample = Some(format!("{n} files, {} pages, {count} Vorbis streams", pages.len()));
	match sut::remux(&cfg, &input) {
		Outcome::Ok(o) if o == want => Ok(()),
		o => Err(art(Failure::new("chained-files", format!("{n} chained files: {}", o.brief())), &input, &cfg).with("wanted.ogg", &want))
	}
}

// ---- C11

/// The data with all serials replaced by the position of their stream, and without checksums.
pub fn without_serials(d: &[u8]) -> Result<(Vec<Page>, Vec<u32>), String> {
	let mut pages = ogg::parse_pages(d)?;
	let mut serials: Vec<u32> = vec![];
	let mut n = 0u32;
	for p in &mut pages {
		if p.flags & BOS != 0 {
			serials.push(p.serial);
			n = serials.len() as u32;
		}
		if serials.last() != Some(&p.serial) {
			return Err("page of another stream".into());
		}
		p.serial = n;
	}
	Ok((pages, serials))
}

fn c11_input(t: &mut Tape) -> Vec<u8> {
	if t.chance(1, 4) {
		return t.pick(&CORPUS[..VALID]).1.to_vec();
	}
	let n = match t.weighted(&[3, 1]) {
		0 => t.size(1, 4),
		_ => t.size(1, 40)
	};
	let p = if n > 4 { Profile { max_packets: 1, max_bits: 50, layout: false, ..Profile::small() } } else { Profile::small() };
	let f = t.size(0, 1);
	ogg::encode_pages(&gen::gen_file(t, &p, n, f).pages)
}

fn c11_serials(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { err_none: true, ..Cfg::draw(t) };
	let input = c11_input(t);
	c11_check(cx, cfg, input)
}

fn c11_many(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { err_none: true, ..Cfg::draw(t) };
	let (_, which, pages) = gen::gen_many_streams(t);
	cx.label_if(which.len() > 256, "more than 256 streams");
	c11_check(cx, cfg, ogg::encode_pages(&pages))
}

fn c11_check(cx: &mut Cx, cfg: Cfg, input: Vec<u8>) -> CaseResult {
	cx.hash = hash_bytes(&input) ^ cfg.serial as u64;
	let base = Cfg { serial: 1, ..cfg.clone() };
	let Outcome::Ok(reference) = sut::remux(&base, &input) else {
		cx.label("rejected");
		return Ok(());
	};
	let bad = |k: &str, m: String| Err(art(Failure::new(k, m), &input, &cfg));
	let (ref_pages, ref_serials) = match without_serials(&reference) {
		Ok(x) => x,
		Err(e) => return bad("output-unreadable", e)
	};
	let n = ref_serials.len() as u32;
	cx.label_if(n > 1, "several streams");
	cx.label_if(n > 8, "more than 8 streams");
	cx.nontrivial = true;
	// Not randomized
	let out = must(&input, &cfg, "different serial offset")?;
	let (pages, serials) = match without_serials(&out) {
		Ok(x) => x,
		Err(e) => return bad("output-unreadable", e)
	};
	let want: Vec<u32> = (0..n).map(|i| cfg.serial.wrapping_add(i)).collect();
	cx.label_if(cfg.serial.checked_add(n - 1).is_none(), "serials wrap around");
	if serials != want {
		let k = serials.iter().zip(&want).position(|(a, b)| a != b);
		return bad("serials", format!("serials {:?} instead of {:?}, first difference at {k:?}", &serials[..serials.len().min(40)], &want[..want.len().min(40)]));
	}
	if pages != ref_pages {
		return bad("serial-changes-more", "the serial offset changes more than serials".into());
	}
	if must(&input, &cfg, "again")? != out {
		return bad("not-deterministic", "two runs with the same settings give different outputs".into());
	}
	// Randomized
	let rnd = Cfg { randomize: true, ..cfg.clone() };
	let mut seen: Vec<Vec<u32>> = vec![];
	for _ in 0..4 {
		let out = must(&input, &rnd, "randomized serials")?;
		let (pages, mut serials) = match without_serials(&out) {
			Ok(x) => x,
			Err(e) => return bad("output-unreadable", e)
		};
		if pages != ref_pages {
			return bad("randomization-changes-more", "randomization changes more than serials".into());
		}
		seen.push(serials.clone());
		serials.sort();
		serials.dedup();
		if serials.len() as u32 != n {
			return bad("serials-not-distinct", format!("randomized serials of one file: {:?}", &seen.last().unwrap()[..seen.last().unwrap().len().min(40)]));
		}
	}
	for i in 0..n as usize {
		if seen.iter().all(|s| s[i] == seen[0][i]) {
			return bad("not-random", format!("stream {i} got serial {} in four runs", seen[0][i]));
		}
	}
	let shown: Vec<_> = seen.iter().take(2).map(|s| &s[..s.len().min(8)]).collect();
	cx.sample = Some(format!("{n} streams, offset {}, randomized runs {shown:?}", cfg.serial));
	Ok(())
}

const EPOCHS: [(&[u8], bool); 22] = [
	(b"0", true),
	(b"1", true),
	(b"1700000000", true),
	(b"-1", true),
	(b"-315619200", true),
	(b"9223372036854775807", true),
	(b"18446744073709551615", true),
	(b"4294967296", true),
	(b"0001", true),
	(b"253402300800", true),
	(b"", false),
	(b"abc", false),
	(b"1.5", false),
	(b"1e9", false),
	(b" 1", false),
	(b"1 ", false),
	(b"0x10", false),
	(b"1700000000\n", false),
	(b"-", false),
	(b"--1", false),
	(b"\xff\xfe", false),
	(b"1,000", false)
];

/// Runs in fresh processes, whose SOURCE_DATE_EPOCH matters.
fn c11_epoch(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	use super::child::{remux_in_process, Env};
	use std::os::unix::ffi::OsStringExt;
	let inputs: Vec<Vec<u8>> = (0..2).map(|_| c11_input(t)).collect();
	let input = &inputs[0];
	let cfg = Cfg { randomize: true, err_none: true, ..Cfg::draw(t) };
	let plain = Cfg { randomize: false, ..cfg.clone() };
	cx.hash = hash_bytes(input) ^ cfg.serial as u64;
	let bad = |k: &str, m: String| Err(art(Failure::new(k, m), input, &cfg));
	let Outcome::Ok(reference) = sut::remux(&plain, input) else {
		cx.label("rejected");
		return Ok(());
	};
	let (ref_pages, _) = without_serials(&reference).map_err(|e| art(Failure::new("output-unreadable", e), input, &cfg))?;
	let (value, ok) = match t.weighted(&[3, 1, 1]) {
		0 => {
			let (v, ok) = EPOCHS[t.below(EPOCHS.len() as u64) as usize];
			(v.to_vec(), ok)
		}
		1 => (format!("{}", t.below(0) as i64).into_bytes(), true),
		_ => (format!("{}", t.below(1 << 33)).into_bytes(), true)
	};
	let env = || Env::Set(std::ffi::OsString::from_vec(value.clone()));
	let shown = String::from_utf8_lossy(&value).into_owned();
	cx.nontrivial = true;
	cx.sample = Some(format!("SOURCE_DATE_EPOCH={shown:?} ({}), {} bytes", if ok { "valid" } else { "invalid" }, input.len()));
	// Without randomization the variable does not matter
	let unrandomized = remux_in_process(&plain, &[input], env());
	if unrandomized[0] != Outcome::Ok(reference.clone()) {
		return bad("epoch-without-randomization", format!("SOURCE_DATE_EPOCH={shown:?} changes a run without randomization: {}", unrandomized[0].brief()));
	}
	let a = remux_in_process(&cfg, &[input, &inputs[1], input], env());
	if !ok {
		cx.label("invalid epoch");
		for o in &a {
			match o {
				Outcome::Err(e) if e.contains("SOURCE_DATE_EPOCH") => (),
				Outcome::Err(_) => cx.label("other input rejected"),
				o => return bad("invalid-epoch-accepted", format!("SOURCE_DATE_EPOCH={shown:?}: {}", o.brief()))
			}
		}
		return Ok(());
	}
	cx.label("valid epoch");
	let b = remux_in_process(&cfg, &[input, &inputs[1], input], env());
	if a != b {
		return bad("not-reproducible", format!("SOURCE_DATE_EPOCH={shown:?}: two processes give different outputs"));
	}
	for o in [&a[0], &a[2]] {
		let Outcome::Ok(o) = o else { return bad("epoch-not-accepted", format!("SOURCE_DATE_EPOCH={shown:?}: {}", o.brief())) };
		match without_serials(o) {
			Ok((p, mut s)) => {
				let n = s.len();
				s.sort();
				s.dedup();
				if p != ref_pages || s.len() != n {
					return bad("epoch-changes-more", format!("SOURCE_DATE_EPOCH={shown:?} changes more than serials, or they are not distinct"));
				}
			}
			Err(e) => return bad("output-unreadable", e)
		}
	}
	// Fresh processes without the variable are random
	let c = remux_in_process(&cfg, &[input], Env::Unset);
	let d = remux_in_process(&cfg, &[input], Env::Unset);
	if !c[0].is_ok() || !d[0].is_ok() || c == d {
		let e = remux_in_process(&cfg, &[input], Env::Unset);
		if !c[0].is_ok() || c == e {
			return bad("fresh-not-random", "processes without SOURCE_DATE_EPOCH give the same serials".into());
		}
	}
	// The offset is added to the first serial
	let moved = Cfg { serial: cfg.serial.wrapping_add(1000), ..cfg.clone() };
	let e = remux_in_process(&moved, &[input], env());
	if let (Outcome::Ok(x), Outcome::Ok(y)) = (&a[0], &e[0]) {
		let (sx, sy) = (without_serials(x).unwrap().1, without_serials(y).unwrap().1);
		if sx.iter().zip(&sy).any(|(x, y)| x.wrapping_add(1000) != *y) {
			return bad("offset-not-added", format!("serials {sx:?} became {sy:?} with an offset bigger by 1000"));
		}
	} else {
		return bad("epoch-not-accepted", format!("{} / {}", a[0].brief(), e[0].brief()));
	}
	Ok(())
}

// ---- C12

fn c12_input(t: &mut Tape) -> Vec<u8> {
	if t.chance(1, 6) {
		return t.pick(&CORPUS[..8]).1.to_vec();
	}
	let (n, f) = (t.size(1, 2), t.size(0, 1));
	ogg::encode_pages(&gen::gen_file(t, &Profile { max_bits: 600, ..Profile::small() }, n, f).pages)
}

fn c12_detect(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { verify: true, err_none: t.chance(1, 2), ..Cfg::draw_any(t) };
	let mut d = c12_input(t);
	if !sut::remux(&cfg, &d).is_ok() {
		cx.label("rejected");
		return Ok(());
	}
	let ranges = ogg::page_ranges(&d);
	let k = t.below(ranges.len() as u64) as usize;
	let (a, b) = ranges[k];
	let what = t.weighted(&[3, 3, 1, 1]);
	let before = d.clone();
	match what {
		0 => {
			// One bit anywhere after the capture pattern
			let i = t.size(a + 4, b - 1);
			d[i] ^= 1 << t.below(8);
		}
		1 => {
			let i = t.size(a + 22, a + 25);
			d[i] ^= t.range(1, 255) as u8;
		}
		2 => {
			for i in a + 22..a + 26 {
				d[i] = 0;
			}
		}
		_ => {
			let i = t.size(a + 26, b - 1);
			let n = t.size(1, 4).min(b - i);
			let r = t.bytes(n);
			d[i..i + n].copy_from_slice(&r);
		}
	}
	if d == before {
		cx.label("unchanged");
		return Ok(());
	}
	cx.hash = hash_bytes(&d);
	cx.nontrivial = true;
	cx.label(["flipped bit", "changed checksum", "zero checksum", "changed data"][what]);
	cx.label_if(k + 1 == ranges.len(), "last page");
	cx.label_if(k == 0, "first page");
	cx.sample = Some(format!("page {k} of {} ({})", ranges.len(), ["flipped bit", "changed checksum", "zero checksum", "changed data"][what]));
	match sut::remux(&cfg, &d) {
		Outcome::Err(_) => Ok(()),
		o => Err(art(Failure::new("corruption-not-detected", format!("page {k} of {} corrupted: {}", ranges.len(), o.brief())), &d, &cfg))
	}
}

/// Every byte after the capture pattern of every page of a small file.
fn c12_every_byte(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { verify: true, ..Cfg::default() };
	let p = Profile { max_bits: 100, max_packets: 3, max_channels: 2, ..Profile::small() };
	let f = t.size(0, 1);
	let file = gen::gen_file(t, &p, 1, f);
	let mut d = ogg::encode_pages(&file.pages);
	if d.len() > 4000 || !sut::remux(&cfg, &d).is_ok() {
		cx.label("too big or rejected");
		return Ok(());
	}
	cx.sample = Some(format!("{} bytes", d.len()));
	for (a, b) in ogg::page_ranges(&d) {
		for i in a + 4..b {
			let bit = 1u8 << t.below(8);
			d[i] ^= bit;
			cx.evals += 1;
			cx.extra.push(hash_bytes(&d));
			let r = sut::remux(&cfg, &d);
			if !matches!(r, Outcome::Err(_)) {
				return Err(art(Failure::new("corruption-not-detected", format!("byte {i} changed: {}", r.brief())), &d, &cfg));
			}
			d[i] ^= bit;
		}
	}
	Ok(())
}

fn c12_repair(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg { verify: false, err_none: t.chance(1, 2), ..Cfg::draw_any(t) };
	let good = c12_input(t);
	let Outcome::Ok(want) = sut::remux(&cfg, &good) else {
		cx.label("rejected");
		return Ok(());
	};
	let want = cfg.neutral(want);
	let with = must(&good, &Cfg { verify: true, ..cfg.clone() }, "checksum verification on")?;
	let with = cfg.neutral(with);
	if with != want {
		return Err(art(Failure::new("verification-changes-output", first_difference(&with, &want)), &good, &cfg));
	}
	let mut d = good.clone();
	let all = t.chance(1, 3);
	let mut n = 0;
	for (a, _) in ogg::page_ranges(&good) {
		if all || t.chance(1, 3) {
			let r = t.bytes(4);
			d[a + 22..a + 26].copy_from_slice(&r);
			n += 1;
		}
	}
	cx.hash = hash_bytes(&d);
	cx.nontrivial = n > 0;
	cx.sample = Some(format!("{n} pages with wrong checksums, {} bytes", d.len()));
	let out = must(&d, &cfg, "wrong checksums without verification")?;
	let checksums = ogg::parse_pages(&out);
	let out = cfg.neutral(out);
	if out != want {
		return Err(art(Failure::new("checksum-matters", format!("the output differs: {}", first_difference(&want, &out))), &d, &cfg));
	}
	if let Err(e) = checksums {
		return Err(art(Failure::new("output-checksum", e), &d, &cfg));
	}
	Ok(())
}

/// A source where something changes when it is read again.
struct Fading<'a> {
	data: &'a [u8],
	pos: usize,
	/// Position and mask of the change
	at: usize,
	mask: u8,
	/// How often that byte was read before
	seen: u32
}

impl Read for Fading<'_> {
	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
		let rest = &self.data[self.pos.min(self.data.len())..];
		let n = rest.len().min(buf.len());
		buf[..n].copy_from_slice(&rest[..n]);
		if (self.pos..self.pos + n).contains(&self.at) {
			if self.seen > 0 {
				buf[self.at - self.pos] ^= self.mask;
			}
			self.seen += 1;
		}
		self.pos += n;
		Ok(n)
	}
}

impl Seek for Fading<'_> {
	fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
		let to = match p {
			SeekFrom::Start(n) => Some(n),
			SeekFrom::Current(d) => (self.pos as u64).checked_add_signed(d),
			SeekFrom::End(d) => (self.data.len() as u64).checked_add_signed(d)
		};
		self.pos = to.ok_or_else(|| std::io::Error::from(std::io::ErrorKind::InvalidInput))? as usize;
		Ok(self.pos as u64)
	}
}

/// Pages that are intact when they are read first, and corrupt when they are read again.
fn c12_fading(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let verify = !t.chance(1, 4);
	let cfg = Cfg { verify, err_none: true, ..Cfg::draw(t) };
	let d = c12_input(t);
	let Outcome::Ok(want) = sut::remux(&cfg, &d) else {
		cx.label("rejected");
		return Ok(());
	};
	let ranges = ogg::page_ranges(&d);
	let k = t.below(ranges.len() as u64) as usize;
	let (a, b) = ranges[k];
	let at = match t.weighted(&[2, 1]) {
		0 if verify => t.size(a + 4, b - 1),
		_ => t.size(a + 22, a + 25)
	};
	let mask = 1u8 << t.below(8);
	cx.hash = hash_bytes(&d) ^ ((at as u64) << 8) ^ mask as u64;
	let mut source = Fading { data: &d, pos: 0, at, mask, seen: 0 };
	let r = sut::remux_io(&cfg, &mut source, Vec::new());
	cx.nontrivial = source.seen > 1;
	cx.label(if verify { "verification on" } else { "verification off" });
	cx.label_if(source.seen < 2, "the byte was read only once");
	cx.sample = Some(format!("byte {at} of page {k} of {} changes when it is read again: {}", ranges.len(), r.brief()));
	match r {
		Outcome::Err(_) if verify => Ok(()),
		Outcome::Ok(o) if o == want => Ok(()),
		o => {
			let (kind, m) = if verify { ("corruption-not-detected", "the corrupt page is used") } else { ("checksum-matters", "without verification") };
			Err(art(Failure::new(kind, format!("byte {at} ({} of page {k} of {}) changes when it is read again: {m}: {}", at - a, ranges.len(), o.brief())), &d, &cfg))
		}
	}
}

/// The verification setting is all that matters, also where checksums serve other purposes: they
/// take part in the generation of reproducible random serials.
fn c12_processes(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	use super::child::{remux_in_process, Env};
	let cfg = Cfg { randomize: !t.chance(1, 4), verify: false, err_none: true, ..Cfg::draw(t) };
	let good = c12_input(t);
	let Outcome::Ok(want) = sut::remux(&Cfg { randomize: false, ..cfg.clone() }, &good) else {
		cx.label("rejected");
		return Ok(());
	};
	let mut d = good.clone();
	let ranges = ogg::page_ranges(&good);
	let pick = t.below(ranges.len() as u64) as usize;
	for (i, (a, _)) in ranges.iter().enumerate() {
		if i == pick || t.chance(1, 4) {
			let at = a + t.size(22, 25);
			d[at] ^= t.range(1, 255) as u8;
		}
	}
	cx.hash = hash_bytes(&d);
	cx.nontrivial = true;
	let epoch = format!("{}", t.below(1 << 33));
	let set = t.chance(3, 4);
	let env = || if set { Env::Set(epoch.clone().into()) } else { Env::Unset };
	cx.label_if(set && cfg.randomize, "reproducible random serials");
	cx.sample = Some(format!("wrong checksums, SOURCE_DATE_EPOCH {}, settings {cfg:?}", if set { &epoch } else { "not set" }));
	let neutral = |o: Vec<u8>| Cfg { randomize: true, ..cfg.clone() }.neutral(o);
	let want = neutral(want);
	let bad = |k: &str, m: String| Err(art(Failure::new(k, m), &d, &cfg));
	for (what, i) in [("wrong", &d), ("right", &good)] {
		match remux_in_process(&cfg, &[i], env()).remove(0) {
			Outcome::Ok(o) => {
				if let Err(e) = ogg::parse_pages(&o) {
					return bad("output-checksum", e);
				}
				if neutral(o) != want {
					return bad("checksum-matters", format!("{what} checksums without verification: the output differs by more than serials"));
				}
			}
			o => return bad("checksum-matters", format!("{what} checksums without verification: {}", o.brief()))
		}
	}
	match remux_in_process(&Cfg { verify: true, ..cfg.clone() }, &[&d], env()).remove(0) {
		Outcome::Err(_) => Ok(()),
		o => bad("corruption-not-detected", format!("wrong checksums with verification: {}", o.brief()))
	}
}

// ---- C17

/// A source that splits reads, and notices access in front of its start. Its data lies at a position of choice,
/// with zeros in front.
pub struct Source<'a> {
	pub data: &'a [u8],
	pub base: u64,
	pub pos: u64,
	pub rng: Rng,
	pub max: u64,
	pub start: u64,
	pub lowest: u64
}

impl Read for Source<'_> {
	fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
		if buf.is_empty() {
			return Ok(0);
		}
		self.lowest = self.lowest.min(self.pos);
		let mut n = (1 + self.rng.below(self.max)).min(buf.len() as u64) as usize;
		if self.pos < self.base {
			n = n.min((self.base - self.pos) as usize);
			buf[..n].fill(0);
		} else {
			let rest = &self.data[((self.pos - self.base) as usize).min(self.data.len())..];
			n = n.min(rest.len());
			buf[..n].copy_from_slice(&rest[..n]);
		}
		self.pos += n as u64;
		Ok(n)
	}
}

impl Seek for Source<'_> {
	fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
		let to = match p {
			SeekFrom::Start(n) => Some(n),
			SeekFrom::Current(d) => self.pos.checked_add_signed(d),
			SeekFrom::End(d) => (self.base + self.data.len() as u64).checked_add_signed(d)
		};
		self.pos = to.ok_or_else(|| std::io::Error::from(std::io::ErrorKind::InvalidInput))?;
		Ok(self.pos)
	}
}

pub struct Sink {
	pub data: Vec<u8>,
	pub rng: Rng,
	pub max: u64,
	pub id: u64
}

impl Write for Sink {
	fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
		if buf.is_empty() {
			return Ok(0);
		}
		let n = (1 + self.rng.below(self.max)).min(buf.len() as u64) as usize;
		self.data.extend(&buf[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> std::io::Result<()> {
		Ok(())
	}
}

pub fn any_input(t: &mut Tape) -> Vec<u8> {
	match t.weighted(&[6, 2, 1, 1, 1]) {
		0 => {
			let (n, f) = (t.size(1, 3), t.size(0, 1));
			ogg::encode_pages(&gen::gen_file(t, &Profile::small(), n, f).pages)
		}
		1 => t.pick(&CORPUS).1.to_vec(),
		2 => {
			// Truncated
			let mut d = ogg::encode_pages(&gen::gen_file(t, &Profile::small(), 1, 0).pages);
			let n = t.size(0, d.len());
			d.truncate(n);
			d
		}
		3 => {
			let mut d = ogg::encode_pages(&gen::gen_file(t, &Profile::small(), 1, 0).pages);
			let i = t.below(d.len() as u64) as usize;
			d[i] ^= 1 << t.below(8);
			d
		}
		_ => {
			let n = t.size(0, 300);
			t.bytes(n)
		}
	}
}

fn c17_position(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let input = any_input(t);
	let want = sut::remux(&cfg, &input);
	let mut prefix = match t.weighted(&[2, 2, 1, 1]) {
		0 => vec![],
		1 => {
			let n = t.size(0, 400);
			t.bytes(n)
		}
		2 => t.pick(&CORPUS).1.to_vec(),
		_ => b"OggS\0\x02".repeat(9)
	};
	if t.chance(1, 3) {
		prefix.extend(b"OggS");
	}
	let base = match t.weighted(&[3, 1, 1, 1]) {
		0 => 0,
		1 => (1 << *t.pick(&[16u32, 31, 32, 33, 40, 53, 62])) - t.below(2000),
		2 => t.below(1 << 34),
		_ => t.below(1 << 62)
	};
	let start = base + prefix.len() as u64;
	let mut all = prefix;
	all.extend(&input);
	let max = *t.pick(&[u64::MAX, 1, 2, 7, 100, 5000]);
	let wmax = *t.pick(&[u64::MAX, 1, 3, 300]);
	let before = {
		let n = t.size(0, 40);
		t.bytes(n)
	};
	let id = t.below(0);
	let mut source = Source { data: &all, base, pos: start, rng: Rng::new(t.seed()), max, start, lowest: u64::MAX };
	let sink = Sink { data: before.clone(), rng: Rng::new(t.seed()), max: wmax, id };
	cx.hash = hash_bytes(&all) ^ start.rotate_left(32) ^ max ^ wmax;
	cx.nontrivial = start > 0 || max < u64::MAX;
	cx.label(match &want {
		Outcome::Ok(_) => "accepted",
		_ => "rejected"
	});
	cx.label_if(start > 0, "source does not start at 0");
	cx.label_if(start > u32::MAX as u64, "source starts beyond 4 GiB");
	cx.label_if(max == 1, "reads of one byte");
	cx.label_if(wmax == 1, "writes of one byte");
	cx.sample = Some(format!("{} bytes from position {start}, reads up to {max}, writes up to {wmax}: {}", input.len(), want.brief()));
	let got = sut::guard(|| {
		use optivorbis::Remuxer;
		let r = cfg.remuxer();
		r.remux(&mut source, sink).map_err(|e| e.to_string())
	});
	if source.lowest < source.start {
		return Err(art(Failure::new("read-before-start", format!("read at {} with a start position of {start}", source.lowest)), &all, &cfg));
	}
	match (&got, &want) {
		(Outcome::Ok(s), Outcome::Ok(w)) if s.id == id && s.data.starts_with(&before) && s.data[before.len()..] == w[..] => Ok(()),
		(Outcome::Err(a), Outcome::Err(b)) if a == b => Ok(()),
		_ => {
			let g = match got {
				Outcome::Ok(s) => format!("Ok with {} bytes", s.data.len()),
				o => o.brief()
			};
			Err(art(Failure::new("io-pattern-matters", format!("start {start}, reads up to {max}, writes up to {wmax}: {g} instead of {}", want.brief())), &all, &cfg))
		}
	}
}

fn c17_reuse(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	use optivorbis::Remuxer;
	let cfg = Cfg::draw(t);
	let n = t.size(2, 6);
	let inputs: Vec<Vec<u8>> = (0..n).map(|_| any_input(t)).collect();
	let remuxer = cfg.remuxer();
	let mut outcomes = vec![];
	for (k, d) in inputs.iter().enumerate() {
		let fresh = sut::remux(&cfg, d);
		// Some runs fail while writing
		let broken = t.chance(1, 6);
		let reused = sut::guard(|| {
			if broken {
				let mut small = [0u8; 40];
				let _ = remuxer.remux(Cursor::new(&d[..]), &mut small[..]);
			}
			remuxer.remux(Cursor::new(&d[..]), Vec::new()).map_err(|e| e.to_string())
		});
		outcomes.push(fresh.is_ok());
		if reused != fresh {
			return Err(art(
				Failure::new("instance-state-matters", format!("file {k} of {n} with the same remuxer: {} instead of {}", reused.brief(), fresh.brief())),
				d,
				&cfg
			)
			.with("before.ogg", &inputs[k.saturating_sub(1)]));
		}
	}
	cx.hash = inputs.iter().fold(0, |h, d| h.rotate_left(7) ^ hash_bytes(d));
	cx.nontrivial = outcomes.iter().any(|o| *o);
	cx.label_if(outcomes.windows(2).any(|w| !w[0] && w[1]), "accepted after rejected");
	cx.sample = Some(format!("{n} files, accepted: {outcomes:?}"));
	Ok(())
}

/// What a process did before does not matter either.
fn c17_processes(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	use super::child::{remux_in_process, Env};
	let cfg = Cfg::draw(t);
	let n = t.size(2, 5);
	let mut inputs: Vec<Vec<u8>> = vec![];
	for k in 0..n {
		// The same file again, another one, or one that only differs in a part
		let d = match t.weighted(&[4, 1, 2]) {
			1 if k > 0 => t.pick(&inputs).clone(),
			2 if k > 0 => {
				let mut d = t.pick(&inputs).clone();
				let mut pages = ogg::parse_pages(&d).unwrap_or_default();
				if !pages.is_empty() {
					let i = t.below(pages.len() as u64) as usize;
					let p = &mut pages[i];
					if !p.body.is_empty() {
						let at = t.below(p.body.len() as u64) as usize;
						p.body[at] ^= 1 << t.below(8);
					}
					d = ogg::encode_pages(&pages);
				}
				d
			}
			_ => any_input(t)
		};
		inputs.push(d);
	}
	let all: Vec<&Vec<u8>> = inputs.iter().collect();
	let together = remux_in_process(&cfg, &all, Env::Unset);
	let k = t.size(1, n - 1);
	let alone = remux_in_process(&cfg, &all[k..k + 1], Env::Unset);
	cx.hash = inputs.iter().fold(0, |h, d| h.rotate_left(7) ^ hash_bytes(d));
	cx.nontrivial = alone[0].is_ok();
	cx.sample = Some(format!("{n} files in one process, number {k} alone in another: {}", alone[0].brief()));
	if together[k] != alone[0] {
		let mut f = Failure::new("history-matters", format!("file {k} of {n} in one process: {} instead of {}", together[k].brief(), alone[0].brief()));
		for (i, d) in inputs.iter().enumerate().take(k) {
			f = f.with(&format!("before-{i}.ogg"), d);
		}
		return Err(art(f, &inputs[k], &cfg));
	}
	Ok(())
}

/// The optional BufReader and File as sources behave like memory.
fn c17_sources(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let cfg = Cfg::draw(t);
	let input = any_input(t);
	let want = sut::remux(&cfg, &input);
	let cap = t.size(1, 9000);
	let got = sut::remux_io(&cfg, std::io::BufReader::with_capacity(cap, Cursor::new(&input[..])), Vec::new());
	cx.hash = hash_bytes(&input) ^ cap as u64;
	cx.nontrivial = want.is_ok();
	cx.sample = Some(format!("buffer of {cap} bytes: {}", want.brief()));
	let mut buf = std::io::BufWriter::with_capacity(t.size(1, 5000), Vec::new());
	let got2 = sut::guard(|| {
		use optivorbis::Remuxer;
		cfg.remuxer().remux(Cursor::new(&input[..]), &mut buf).map(|_| ()).map_err(|e| e.to_string())
	});
	let flushed = buf.into_inner().unwrap();
	let same2 = match (&got2, &want) {
		(Outcome::Ok(()), Outcome::Ok(w)) => *w == flushed,
		(Outcome::Err(a), Outcome::Err(b)) => a == b,
		_ => false
	};
	if got != want || !same2 {
		return Err(art(Failure::new("source-type-matters", format!("{} / {} instead of {}", got.brief(), got2.brief(), want.brief())), &input, &cfg));
	}
	Ok(())
}

pub fn props() -> Vec<Prop> {
	vec![
		Prop {
			id: "C08",
			level: "exploration",
			rule: "comment headers with generated vendor strings and user comments (sizes up to 300 kB, a few of more than 16 MiB, any bytes), intact, cut, padded or with wrong length fields, put into a small stream; one campaign cuts a header at every byte; non-trivial: a header of more than 16 bytes, or a distinct cut",
			assumptions: &["the version tags are the ones the library exports"],
			campaigns: vec![
				enumeration("corpus", VALID as u64 * 10, c08_corpus),
				campaign("generated", 60_000, 600_000, c08_generated),
				campaign("large", 600, 8_000, c08_large),
				campaign("every-truncation", 600, 8_000, c08_truncations)
			]
		},
		Prop {
			id: "C09",
			level: "exploration",
			rule: "generated streams, files of several streams and real files, remuxed twice; non-trivial: the first run changes the file and it has codewords",
			assumptions: &[],
			campaigns: vec![
				enumeration("corpus", VALID as u64 * 20, c09_corpus),
				campaign("streams", 20_000, 200_000, c09_streams),
				campaign("real-headers", 2_000, 20_000, c09_real),
				campaign("files", 6_000, 60_000, c09_files),
				campaign("other-files", 10_000, 100_000, c09_other),
				campaign("long", 400, 4_000, c09_long),
				campaign("many-packets", 24, 600, |t, cx| {
					let cfg = Cfg::draw(t);
					let s = gen::gen_many(t);
					c09_case(cx, s.encode(), cfg)
				})
			]
		},
		Prop {
			id: "C10",
			level: "exploration",
			rule: "files of 1 to 8 (and 255 to 5000) chained Vorbis streams with up to 6 foreign streams chained or multiplexed anywhere, grouped Vorbis streams, files without Vorbis, chained real files; non-trivial: more than one logical stream",
			assumptions: &["the result of a stream alone is judged by the other properties"],
			campaigns: vec![
				campaign("chains", 12_000, 120_000, c10_chain),
				campaign("many-streams", 40, 400, c10_many),
				campaign("grouped", 8_000, 80_000, c10_grouped),
				campaign("no-vorbis", 8_000, 80_000, c10_none),
				campaign("corpus-chains", 1_500, 15_000, c10_corpus),
				campaign("other-files", 6_000, 60_000, c10_other)
			]
		},
		Prop {
			id: "C11",
			level: "exploration",
			rule: "generated chains of up to 40 (and up to 5000) streams and real files, remuxed with sequential and randomized serials, in this process and in fresh ones with valid and invalid values of SOURCE_DATE_EPOCH; non-trivial: accepted input",
			assumptions: &["four randomized runs giving a stream the same serial (chance 2^-96) count as not random"],
			campaigns: vec![campaign("serials", 8_000, 80_000, c11_serials), campaign("many-streams", 24, 240, c11_many), campaign("epoch", 500, 6_000, c11_epoch)]
		},
		Prop {
			id: "C12",
			level: "exploration",
			rule: "files with corrupted pages (single bits at every offset of small files, checksum fields, data), files with only checksum fields changed, sources whose bytes change between the passes, also in fresh processes with SOURCE_DATE_EPOCH; non-trivial: the file really changed",
			assumptions: &["changes that give the same CRC-32 by chance (2^-32) are ignored"],
			campaigns: vec![
				campaign("corrupt", 30_000, 300_000, c12_detect),
				campaign("every-byte", 150, 2_000, c12_every_byte),
				campaign("repair", 12_000, 120_000, c12_repair),
				campaign("fading", 10_000, 120_000, c12_fading),
				campaign("processes", 400, 10_000, c12_processes)
			]
		},
		Prop {
			id: "C17",
			level: "exploration",
			rule: "valid, damaged and random inputs behind any prefix, with sources and sinks that split operations, and sequences of files through one remuxer instance; non-trivial: a prefix or split reads, or an accepted file",
			assumptions: &[],
			campaigns: vec![
				campaign("position-and-fragments", 12_000, 120_000, c17_position),
				campaign("reuse", 4_000, 40_000, c17_reuse),
				campaign("sources", 5_000, 50_000, c17_sources),
				campaign("processes", 1_500, 20_000, c17_processes)
			]
		}
	]
}
