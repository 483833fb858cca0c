//! Reference understanding of whole files: which Vorbis streams a physical bitstream holds and
//! what they decode to. Works on any byte string, independently of how it was generated.

use crate::audio::{self, Codes, Fate, Packet};
use crate::ogg::{self, Page, Pkt, BOS, CONTINUED, EOS};
use crate::vorbis::*;

/// A Vorbis stream as the reference understands it.
pub struct Stream {
	pub serial: u32,
	pub pages: Vec<Page>,
	pub packets: Vec<Pkt>,
	pub ident: Ident,
	pub parsed: Parsed,
	pub codes: Codes,
	/// Reference decode of packets[3..]
	pub audio: Vec<Packet>
}

impl Stream {
	pub fn setup(&self) -> &Setup {
		&self.parsed.setup
	}
	pub fn kept(&self) -> Vec<usize> {
		(0..self.audio.len()).filter(|i| self.audio[*i].fate != Fate::Dropped).collect()
	}
	pub fn describe(&self) -> String {
		let s = self.setup();
		format!(
			"{} ch, blocks 2^{}/2^{}, {} books (max {} entries), {} floors, {} residues, {} mappings, {} modes, {} audio packets ({} kept), {} pages",
			self.ident.channels,
			self.ident.bs0,
			self.ident.bs1,
			s.books.len(),
			s.books.iter().map(|b| b.lens.len()).max().unwrap_or(0),
			s.floors.len(),
			s.residues.len(),
			s.mappings.len(),
			s.modes.len(),
			self.audio.len(),
			self.kept().len(),
			self.pages.len()
		)
	}
	pub fn codewords(&self) -> usize {
		self.audio.iter().map(|a| a.evs.iter().filter(|e| matches!(e, audio::Ev::Entry(..))).count()).sum()
	}
}

/// Understands the packets of a Vorbis stream; `Err` is the violated rule.
pub fn understand(raw: ogg::Stream) -> Result<Stream, String> {
	let ogg::Stream { serial, pages, packets } = raw;
	if packets.len() < 3 {
		return Err("stream-incomplete-headers".into());
	}
	let ident = Ident::parse(&packets[0].data).ok_or("ident-packet")?;
	if let Some(r) = ident.invalid() {
		return Err(r.into());
	}
	if packets[1].data.len() >= 7 && &packets[1].data[..7] != b"\x03vorbis" {
		return Err("comment-signature".into());
	}
	let parsed = parse_setup(&packets[2].data, ident.channels)?;
	let codes = Codes::new(&parsed.setup).ok_or("book-overspecified")?;
	let mut audio = vec![];
	for p in &packets[3..] {
		audio.push(audio::decode(&ident, &parsed.setup, &codes, &p.data));
	}
	Ok(Stream { serial, pages, packets, ident, parsed, codes, audio })
}

impl Stream {
	/// The first rule an audio packet violates.
	pub fn audio_error(&self) -> Option<&str> {
		self.audio.iter().find_map(|p| match &p.fate {
			Fate::Invalid(r) => Some(&r[..]),
			_ => None
		})
	}
}

/// Splits the intact pages at the start of the data into logical streams, in order of their first
/// pages, without judging anything but packet assembly.
pub fn demux(d: &[u8]) -> Result<Vec<ogg::Stream>, String> {
	let mut streams: Vec<(u32, Vec<Page>, bool)> = vec![];
	for (a, b) in ogg::page_ranges(d) {
		let h = &d[a..b];
		let n = h[26] as usize;
		let p = Page {
			flags: h[5],
			gp: i64::from_le_bytes(h[6..14].try_into().unwrap()),
			serial: u32::from_le_bytes(h[14..18].try_into().unwrap()),
			seq: u32::from_le_bytes(h[18..22].try_into().unwrap()),
			segs: h[27..27 + n].to_vec(),
			body: h[27 + n..].to_vec()
		};
		let at = streams.iter().rposition(|s| s.0 == p.serial && !(s.2 && p.flags & BOS != 0));
		match at {
			Some(i) => {
				streams[i].2 |= p.flags & EOS != 0;
				streams[i].1.push(p)
			}
			None => {
				let eos = p.flags & EOS != 0;
				streams.push((p.serial, vec![p], eos))
			}
		}
	}
	let mut out = vec![];
	for (serial, pages, _) in streams {
		out.push(ogg::assemble(serial, pages)?);
	}
	Ok(out)
}

pub fn is_vorbis(s: &ogg::Stream) -> bool {
	s.packets.first().is_some_and(|p| p.data.starts_with(b"\x01vorbis"))
}

/// All Vorbis streams of a file whose page structure is sound.
pub fn vorbis_streams(d: &[u8]) -> Result<Vec<Stream>, String> {
	demux(d)?.into_iter().filter(is_vorbis).map(understand).collect()
}

/// Logical streams of output written by the code under test, split on page boundaries in order.
/// Tolerates everything except damaged page structure.
pub fn output_streams(d: &[u8]) -> Result<Vec<Stream>, String> {
	let ranges = ogg::page_ranges(d);
	if ranges.last().map_or(0, |r| r.1) != d.len() {
		return Err("output contains bytes that are no page".into());
	}
	vorbis_streams(d)
}

pub fn continued(p: &Page) -> bool {
	p.flags & CONTINUED != 0
}
