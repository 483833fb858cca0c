//! Oracles over (input stream, output stream) pairs; each belongs to one property.

use crate::audio::{Ev, Fate};
use crate::engine::{fail, CaseResult, Failure};
use crate::gen::usage_of;
use crate::huff;
use crate::model::Stream;
use crate::ogg::{self, EOS};
use crate::sut::Cfg;
use crate::vorbis::*;

pub fn show_evs(evs: &[Ev], around: usize) -> String {
	let a = around.saturating_sub(3);
	let b = (around + 4).min(evs.len());
	format!("..{:?}.. ({} symbols)", &evs[a.min(evs.len())..b], evs.len())
}

/// How output symbols relate to the input's.
pub enum Loss {
	None,
	/// The known finding: additional symbols decoded from nothing but the zero bits that pad the
	/// last byte of a packet that ended early
	PaddingDecodes(u64)
}

/// The exact signature of the known finding: input audio packet `k` ends early, output audio packet
/// `n` decodes to the same symbols up to its last byte, whose remaining bits are zero, and these
/// bits decode further.
pub fn early_padding(i: &Stream, o: &Stream, k: usize, n: usize) -> bool {
	let (a, b) = (&i.audio[k], &o.audio[n]);
	let bytes = &o.packets[3 + n].data;
	if a.fate != Fate::Early || b.evs.len() < a.evs.len() || b.evs[..a.evs.len()] != a.evs[..] {
		return false;
	}
	if b.evs.len() == a.evs.len() && !matches!(b.fate, Fate::Invalid(_) | Fate::Full) {
		return false;
	}
	let end = a.evs.len().checked_sub(1).map_or(1, |l| b.ends[l] as usize);
	end.div_ceil(8) == bytes.len() && end % 8 != 0 && bytes[bytes.len() - 1] >> (end % 8) == 0
}

/// Output audio packets with that signature.
pub fn early_padding_all(i: &Stream, o: &Stream) -> Vec<usize> {
	let kept = i.kept();
	(0..kept.len().min(o.audio.len())).filter(|n| early_padding(i, o, kept[*n], *n)).collect()
}

/// C01: every kept packet decodes to the same symbols.
pub fn lossless(i: &Stream, o: &Stream) -> Result<Loss, Failure> {
	let kept = i.kept();
	if kept.len() != o.audio.len() {
		return fail("packet-count", format!("{} decodable audio packets in, {} out", kept.len(), o.audio.len()));
	}
	let mut padding = 0;
	for (n, k) in kept.iter().enumerate() {
		let (a, b) = (&i.audio[*k], &o.audio[n]);
		let bytes = &o.packets[3 + n].data;
		if a.evs == b.evs && (a.fate == b.fate) {
			continue;
		}
		if early_padding(i, o, *k, n) {
			padding += 1;
			continue;
		}
		let at = a.evs.iter().zip(&b.evs).position(|(x, y)| x != y).unwrap_or(a.evs.len().min(b.evs.len()));
		return fail(
			"audio-differs",
			format!(
				"audio packet {k} (output {n}) decodes differently from symbol {at}: input {:?} {}, output {:?} {}",
				a.fate,
				show_evs(&a.evs, at),
				b.fate,
				show_evs(&b.evs, at)
			)
		);
	}
	Ok(if padding > 0 { Loss::PaddingDecodes(padding) } else { Loss::None })
}

/// C02
pub fn headers_preserved(i: &Stream, o: &Stream) -> CaseResult {
	let mut want = i.ident.clone();
	want.framing = 1;
	want.trailing.clear();
	if o.ident != want {
		return fail("ident-differs", format!("identification header {:?} became {:?}", i.ident, o.ident));
	}
	let (a, b) = (i.setup().semantic(), o.setup().semantic());
	if a == b {
		return Ok(());
	}
	if a.books.len() != b.books.len() {
		return fail("book-count", format!("{} codebooks became {}", a.books.len(), b.books.len()));
	}
	for (n, (x, y)) in a.books.iter().zip(&b.books).enumerate() {
		if x == y {
			continue;
		}
		let (mut x2, mut y2) = (x.clone(), y.clone());
		// Words of equal value are equal
		for w in [&mut x2, &mut y2] {
			w.min = canonical_word(w.min);
			w.delta = canonical_word(w.delta);
		}
		if x2 != y2 {
			let (mx, my) = (std::mem::take(&mut x2.mults), std::mem::take(&mut y2.mults));
			x2.lens.clear();
			y2.lens.clear();
			return fail(
				"book-differs",
				format!(
					"codebook {n}: {x2:x?} became {y2:x?}; entries {} -> {}, multiplicands {} (equal: {})",
					x.lens.len(),
					y.lens.len(),
					mx.len(),
					mx == my
				)
			);
		}
	}
	macro_rules! list {
		($f:ident) => {
			if a.$f != b.$f {
				let n = a.$f.iter().zip(&b.$f).position(|(x, y)| x != y).unwrap_or(a.$f.len().min(b.$f.len()));
				return fail(
					concat!(stringify!($f), "-differ"),
					format!("{} {n}: {:?} became {:?}", stringify!($f), a.$f.get(n), b.$f.get(n))
				);
			}
		};
	}
	list!(floors);
	list!(residues);
	list!(mappings);
	list!(modes);
	list!(times);
	Ok(())
}

/// A unique word for every value.
pub fn canonical_word(w: u32) -> u32 {
	let (mut m, mut e) = (w & 0x1f_ffff, (w >> 21) & 0x3ff);
	if m == 0 {
		return 0;
	}
	// Smallest odd mantissa
	while m % 2 == 0 && e < 1023 {
		m /= 2;
		e += 1;
	}
	(w & 0x8000_0000) | e << 21 | m
}

/// C03, page level and packet level; the input does not matter.
pub fn conforming(out: &[u8], negative_positions: bool, excuse: &mut dyn FnMut(usize, usize) -> bool) -> CaseResult {
	let streams = match ogg::parse_strict(out, negative_positions) {
		Ok(s) => s,
		Err(e) => return fail("ogg-not-strict", e)
	};
	for (n, s) in streams.into_iter().enumerate() {
		if s.packets.len() < 3 {
			return fail("missing-headers", format!("stream {n} has only {} packets", s.packets.len()));
		}
		let id = &s.packets[0].data;
		match Ident::parse(id) {
			Some(i) if i.invalid().is_none() && i.framing == 1 && i.trailing.is_empty() => (),
			other => return fail("ident-not-strict", format!("stream {n}: {other:?}"))
		}
		if let Err(e) = Comments::parse_strict(&s.packets[1].data) {
			return fail("comments-not-strict", format!("stream {n}: {e}"));
		}
		let o = match crate::model::understand(s) {
			Ok(o) => o,
			Err(e) => return fail("headers-invalid", format!("stream {n}: {e}"))
		};
		if let Some(l) = o.parsed.lenient.first() {
			return fail("setup-not-strict", format!("stream {n}: {l}"));
		}
		if o.setup().times != [0] || !o.setup().framing {
			return fail("setup-not-strict", format!("stream {n}: time domain transforms {:?}", o.setup().times));
		}
		for (k, p) in o.audio.iter().enumerate() {
			if let Fate::Invalid(e) = &p.fate {
				if !excuse(n, k) {
					return fail("audio-invalid", format!("stream {n} audio packet {k}: {e}"));
				}
			}
		}
		if let Some(p) = o.audio.iter().position(|p| p.fate == Fate::Dropped) {
			return fail("audio-undecodable", format!("stream {n}: audio packet {p} has no mode information"));
		}
	}
	Ok(())
}

/// C04
pub fn optimal(i: &Stream, o: &Stream) -> Result<u64, Failure> {
	let usage = usage_of(i.setup(), i.audio.iter());
	let mut spread = 0;
	if o.setup().books.len() != usage.len() {
		return fail("book-count", format!("{} codebooks became {}", usage.len(), o.setup().books.len()));
	}
	for (n, u) in usage.iter().enumerate() {
		let b = &o.setup().books[n];
		if b.lens.len() != u.len() {
			return fail("entry-count", format!("codebook {n}: {} entries became {}", u.len(), b.lens.len()));
		}
		for (e, (c, l)) in u.iter().zip(&b.lens).enumerate() {
			if (*c > 0) != (*l > 0) {
				return fail("used-entries", format!("codebook {n} entry {e}: used {c} times, codeword length {l}"));
			}
		}
		let cost: u128 = u.iter().zip(&b.lens).map(|(c, l)| *c as u128 * *l as u128).sum();
		let best = huff::optimal_cost(u);
		if cost != best {
			return fail("not-optimal", format!("codebook {n}: {cost} bits of codewords instead of {best}"));
		}
		let before: u128 = u.iter().zip(&i.setup().books[n].lens).map(|(c, l)| *c as u128 * *l as u128).sum();
		if cost > before {
			return fail("more-bits", format!("codebook {n}: {before} bits of codewords became {cost}"));
		}
		let lens: std::collections::BTreeSet<u8> = b.lens.iter().copied().filter(|l| *l > 0).collect();
		spread += (lens.len() > 1) as u64;
	}
	Ok(spread)
}

/// Bits that the kept content of an input audio packet takes with the output's codewords.
fn content_bits(i: &Stream, k: usize, o: &Stream) -> usize {
	1 + i.audio[k]
		.evs
		.iter()
		.map(|e| match e {
			Ev::Bits(w, _) => *w as usize,
			Ev::Entry(b, e) => o.setup().books[*b as usize].lens[*e as usize] as usize
		})
		.sum::<usize>()
}

/// C05
pub fn tight_packets(i: &Stream, o: &Stream) -> CaseResult {
	let kept = i.kept();
	if kept.len() != o.audio.len() {
		return fail("packet-count", format!("{} decodable audio packets in, {} out", kept.len(), o.audio.len()));
	}
	let tail = |p: &[u8], bits: usize, what: &str| -> CaseResult {
		if p.len() != bits.div_ceil(8) {
			return fail("packet-size", format!("{what}: {bits} bits of content in {} bytes", p.len()));
		}
		if bits % 8 != 0 && p[p.len() - 1] >> (bits % 8) != 0 {
			return fail("padding-not-zero", format!("{what}: last byte {:#x} with {} bits used", p[p.len() - 1], bits % 8));
		}
		Ok(())
	};
	if o.packets[0].data.len() != 30 {
		return fail("packet-size", format!("identification header of {} bytes", o.packets[0].data.len()));
	}
	if let Err(e) = Comments::parse_strict(&o.packets[1].data) {
		return fail("packet-size", e);
	}
	tail(&o.packets[2].data, o.parsed.bits, "setup header")?;
	for (n, k) in kept.iter().enumerate() {
		let (a, b) = (&i.audio[*k], &o.audio[n]);
		if a.info.blocksize != b.info.blocksize || a.info.mode != b.info.mode {
			return fail("packet-order", format!("audio packet {k} (output {n}): mode {:?} became {:?}", a.info.mode, b.info.mode));
		}
		tail(&o.packets[3 + n].data, content_bits(i, *k, o), &format!("audio packet {k} (output {n})"))?;
	}
	Ok(())
}

/// C06
pub fn tight_pages(out: &[u8]) -> CaseResult {
	let ranges = ogg::page_ranges(out);
	if ranges.last().map_or(0, |r| r.1) != out.len() {
		return fail("stray-bytes", "bytes outside of pages");
	}
	let pages = match ogg::parse_pages(out) {
		Ok(p) => p,
		Err(e) => return fail("pages", e)
	};
	let mut at = 0;
	while at < pages.len() {
		let end = pages[at..].iter().position(|p| p.flags & EOS != 0).map_or(pages.len(), |e| at + e + 1);
		let ps = &pages[at..end];
		if ps[0].packet_ends() != 1 || *ps[0].segs.last().unwrap() == 255 {
			return fail("ident-page", format!("page {at}: {} packets end on the first page", ps[0].packet_ends()));
		}
		// The page on which the setup header ends
		let mut ends = 0;
		let mut setup = None;
		for (n, p) in ps.iter().enumerate().skip(1) {
			for (k, s) in p.segs.iter().enumerate() {
				ends += (*s < 255) as usize;
				if ends == 2 && setup.is_none() {
					if k + 1 != p.segs.len() {
						return fail("setup-page", format!("page {}: the setup header does not end its page", at + n));
					}
					setup = Some(n);
				}
			}
		}
		let Some(setup) = setup else { return fail("headers", "comment and setup headers are incomplete") };
		for (n, p) in ps.iter().enumerate() {
			if n != 0 && n != setup && n + 1 != ps.len() && p.segs.len() != 255 {
				return fail("page-not-full", format!("page {} of {} has {} segments", at + n, pages.len(), p.segs.len()));
			}
		}
		at = end;
	}
	Ok(())
}

/// One reading of the granule positions of an input stream.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Granules {
	/// Start offset that the first audio page implies
	pub offset: i64,
	/// Final position of the input
	pub last: i64
}

/// The start offset and final position of a stream. The position of the first page that ends an
/// audio packet minus the samples decoded up to the last packet ending there is the start offset,
/// except that the position of the stream's very last page may be trimmed, so it implies no offset
/// (unless there is only one packet). What "first page" and "last page" mean when undecodable
/// packets (which count as nonexistent) end on them can be read in several ways; all are returned.
pub fn input_granules(i: &Stream) -> Vec<Granules> {
	let blocks: Vec<Option<u32>> = i.audio.iter().map(|a| if a.fate == Fate::Dropped { None } else { a.info.blocksize }).collect();
	let sums = crate::gen::running_samples(&blocks);
	let kept = i.kept();
	if kept.is_empty() {
		return vec![];
	}
	let n = i.audio.len();
	let page = |k: usize| i.packets[3 + k].page;
	let gp = |p: usize| i.pages[p].gp;
	let last_kept = *kept.last().unwrap();
	let mut offsets = vec![];
	// Literally, with undecodable packets as packets of zero samples
	let there = (0..n).take_while(|k| page(*k) == page(0)).last().unwrap();
	offsets.push(if there + 1 < n || n == 1 { gp(page(0)).wrapping_sub(sums[there]) } else { 0 });
	if kept.len() < n {
		// As if they did not exist
		let k0 = kept[0];
		let there = *kept.iter().take_while(|k| page(**k) == page(k0)).last().unwrap();
		offsets.push(if there != last_kept || kept.len() == 1 { gp(page(k0)).wrapping_sub(sums[there]) } else { 0 });
		// As if pages whose last packet is one of them carried no position
		let first = kept.iter().copied().find(|k| i.packets[3 + k].last_on_page);
		offsets.push(match first {
			Some(k) if k != last_kept || kept.len() == 1 => gp(page(k)).wrapping_sub(sums[k]),
			_ => 0
		});
	}
	let mut out: Vec<Granules> = vec![];
	for o in offsets {
		for last in [gp(page(last_kept)), gp(page(n - 1))] {
			let g = Granules { offset: o, last };
			if !out.contains(&g) {
				out.push(g);
			}
		}
	}
	out
}

/// C07: granule positions of every output page.
pub fn granules(i: &Stream, o: &Stream, cfg: &Cfg) -> CaseResult {
	let kept = i.kept();
	if kept.len() != o.audio.len() {
		return fail("packet-count", format!("{} decodable audio packets in, {} out", kept.len(), o.audio.len()));
	}
	for (n, p) in o.pages.iter().enumerate() {
		if !p.ends_packet() && p.gp != -1 {
			return fail("position-without-packet", format!("page {n} ends no packet but has position {}", p.gp));
		}
	}
	for (n, p) in o.packets[..3].iter().enumerate() {
		if p.last_on_page && o.pages[p.page].gp != 0 {
			return fail("header-position", format!("header packet {n} ends on a page with position {}", o.pages[p.page].gp));
		}
	}
	let mut first = Ok(());
	for (k, g) in input_granules(i).iter().enumerate() {
		let r = granules_reading(o, cfg, *g, kept.len() < i.audio.len());
		if r.is_ok() {
			return Ok(());
		}
		if k == 0 {
			first = r;
		}
	}
	first
}

fn granules_reading(o: &Stream, cfg: &Cfg, g: Granules, dropped: bool) -> CaseResult {
	let offset = if cfg.ignore_start { 0 } else { g.offset };
	let blocks: Vec<Option<u32>> = o.audio.iter().map(|a| a.info.blocksize).collect();
	let sums = crate::gen::running_samples(&blocks);
	let count = o.audio.len();
	for (n, p) in o.packets.iter().enumerate().skip(3) {
		if !p.last_on_page {
			continue;
		}
		let got = o.pages[p.page].gp;
		let a = n - 3;
		let full = sums[a].wrapping_add(offset);
		let want = if a + 1 < count {
			full
		} else {
			let prev = if a > 0 { sums[a - 1].wrapping_add(offset) } else { full };
			let fin = if cfg.ignore_start { g.last.wrapping_sub(g.offset) } else { g.last };
			if count > 1 && fin > prev && fin <= full {
				fin
			} else {
				full
			}
		};
		// The only decodable packet of a stream with others: also no offset at all
		if got != want && !(count == 1 && dropped && got == 0) {
			return fail(
				if a + 1 < count { "position" } else { "final-position" },
				format!("audio packet {a} of {count} ends on a page with position {got} instead of {want} (start offset {}, final position {})", g.offset, g.last)
			);
		}
	}
	Ok(())
}

/// Expected vendor string.
pub fn vendor_after(vendor: &[u8], action: usize) -> Vec<u8> {
	let full = optivorbis::OPTIVORBIS_VERSION_TAG.as_bytes();
	let short = optivorbis::OPTIVORBIS_SHORT_VERSION_TAG.as_bytes();
	let ends = |tag: &[u8]| vendor.ends_with(&[b"; ", tag].concat());
	let append = |tag: &[u8]| if ends(full) || ends(short) { vendor.to_vec() } else { [vendor, b"; ", tag].concat() };
	match action {
		0 => vendor.to_vec(),
		1 => append(full),
		2 => append(short),
		3 => full.to_vec(),
		_ => vec![]
	}
}

/// C08
pub fn comments(input: &[u8], output: &[u8], cfg: &Cfg) -> CaseResult {
	let (vendor, comments, _) = Comments::parse_lenient(input);
	let out = match Comments::parse_strict(output) {
		Ok(c) => c,
		Err(e) => return fail("comments-not-strict", e)
	};
	let want = vendor_after(&vendor.clone().unwrap_or_default(), cfg.vendor);
	if out.vendor != want {
		return fail(
			"vendor",
			format!(
				"vendor string {:?} with action {} became {:?} instead of {:?}",
				vendor.map(|v| String::from_utf8_lossy(&v).into_owned()),
				crate::sut::VENDOR_NAMES[cfg.vendor],
				String::from_utf8_lossy(&out.vendor),
				String::from_utf8_lossy(&want)
			)
		);
	}
	let want = if cfg.delete_comments { vec![] } else { comments };
	if out.comments != want {
		let n = out.comments.iter().zip(&want).position(|(a, b)| a != b);
		return fail("user-comments", format!("{} user comments instead of {}, first difference at {n:?}", out.comments.len(), want.len()));
	}
	Ok(())
}
