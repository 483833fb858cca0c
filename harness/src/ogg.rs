//! Independent Ogg page writer and strict parser.

pub const CONTINUED: u8 = 1;
pub const BOS: u8 = 2;
pub const EOS: u8 = 4;

fn crc_table() -> &'static [u32; 256] {
	static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
	T.get_or_init(|| {
		let mut t = [0u32; 256];
		for (i, e) in t.iter_mut().enumerate() {
			let mut r = (i as u32) << 24;
			for _ in 0..8 {
				r = if r & 0x8000_0000 != 0 { (r << 1) ^ 0x04c1_1db7 } else { r << 1 };
			}
			*e = r;
		}
		t
	})
}

/// CRC of a page with its checksum field taken as zero.
pub fn page_crc(page: &[u8]) -> u32 {
	let t = crc_table();
	let mut c = 0u32;
	for (i, b) in page.iter().enumerate() {
		let b = if (22..26).contains(&i) { 0 } else { *b };
		c = (c << 8) ^ t[((c >> 24) as u8 ^ b) as usize];
	}
	c
}

#[derive(Clone, Debug, PartialEq)]
pub struct Page {
	pub flags: u8,
	pub gp: i64,
	pub serial: u32,
	pub seq: u32,
	pub segs: Vec<u8>,
	pub body: Vec<u8>
}

impl Page {
	pub fn encode(&self) -> Vec<u8> {
		let mut o = Vec::with_capacity(27 + self.segs.len() + self.body.len());
		o.extend(b"OggS\0");
		o.push(self.flags);
		o.extend(self.gp.to_le_bytes());
		o.extend(self.serial.to_le_bytes());
		o.extend(self.seq.to_le_bytes());
		o.extend([0; 4]);
		o.push(self.segs.len() as u8);
		o.extend(&self.segs);
		o.extend(&self.body);
		let c = page_crc(&o);
		o[22..26].copy_from_slice(&c.to_le_bytes());
		o
	}
	pub fn ends_packet(&self) -> bool {
		self.segs.iter().any(|s| *s < 255)
	}
	pub fn packet_ends(&self) -> usize {
		self.segs.iter().filter(|s| **s < 255).count()
	}
}

pub fn encode_pages<'a>(pages: impl IntoIterator<Item = &'a Page>) -> Vec<u8> {
	let mut o = vec![];
	for p in pages {
		o.extend(p.encode());
	}
	o
}

/// Byte ranges of consecutive pages from the start of the data; stops at the first non-page.
pub fn page_ranges(d: &[u8]) -> Vec<(usize, usize)> {
	let mut out = vec![];
	let mut at = 0;
	while d.len() - at >= 27 && &d[at..at + 4] == b"OggS" {
		let n = d[at + 26] as usize;
		if d.len() - at < 27 + n {
			break;
		}
		let body: usize = d[at + 27..at + 27 + n].iter().map(|s| *s as usize).sum();
		let end = at + 27 + n + body;
		if end > d.len() {
			break;
		}
		out.push((at, end));
		at = end;
	}
	out
}

/// Parses all pages of data that must consist of nothing but intact pages.
pub fn parse_pages(d: &[u8]) -> Result<Vec<Page>, String> {
	let mut out = vec![];
	let mut at = 0;
	while at < d.len() {
		if d.len() - at < 27 || &d[at..at + 4] != b"OggS" {
			return Err(format!("no page at offset {at}"));
		}
		let h = &d[at..];
		if h[4] != 0 {
			return Err(format!("page at {at}: version {}", h[4]));
		}
		if h[5] & !7 != 0 {
			return Err(format!("page at {at}: reserved flags {:#x}", h[5]));
		}
		let n = h[26] as usize;
		if h.len() < 27 + n {
			return Err(format!("page at {at}: truncated segment table"));
		}
		let body: usize = h[27..27 + n].iter().map(|s| *s as usize).sum();
		let len = 27 + n + body;
		if h.len() < len {
			return Err(format!("page at {at}: truncated body"));
		}
		let crc = u32::from_le_bytes(h[22..26].try_into().unwrap());
		if crc != page_crc(&h[..len]) {
			return Err(format!("page at {at}: wrong checksum"));
		}
		out.push(Page {
			flags: h[5],
			gp: i64::from_le_bytes(h[6..14].try_into().unwrap()),
			serial: u32::from_le_bytes(h[14..18].try_into().unwrap()),
			seq: u32::from_le_bytes(h[18..22].try_into().unwrap()),
			segs: h[27..27 + n].to_vec(),
			body: h[27 + n..len].to_vec()
		});
		at += len;
	}
	Ok(out)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Pkt {
	pub data: Vec<u8>,
	/// Index (within the stream) of the page the packet ends on
	pub page: usize,
	/// Whether it is the last packet that ends on that page
	pub last_on_page: bool
}

#[derive(Clone, Debug, PartialEq)]
pub struct Stream {
	pub serial: u32,
	pub pages: Vec<Page>,
	pub packets: Vec<Pkt>
}

/// Assembles packets from the pages of one stream, tolerating nothing but nil pages.
pub fn assemble(serial: u32, pages: Vec<Page>) -> Result<Stream, String> {
	let mut packets: Vec<Pkt> = vec![];
	let mut cur: Option<Vec<u8>> = None;
	for (pi, p) in pages.iter().enumerate() {
		if (p.flags & CONTINUED != 0) != cur.is_some() {
			return Err(format!("serial {serial:#x} page {pi}: continued flag {} does not match", p.flags & 1));
		}
		let mut at = 0;
		let first = packets.len();
		for s in &p.segs {
			let c = cur.get_or_insert_with(Vec::new);
			c.extend(&p.body[at..at + *s as usize]);
			at += *s as usize;
			if *s < 255 {
				packets.push(Pkt { data: cur.take().unwrap(), page: pi, last_on_page: false });
			}
		}
		if packets.len() > first {
			packets.last_mut().unwrap().last_on_page = true;
		}
	}
	if cur.is_some() {
		return Err(format!("serial {serial:#x}: last packet incomplete"));
	}
	Ok(Stream { serial, pages, packets })
}

/// Strict parse of a sequentially chained physical bitstream. With legal negative positions
/// (samples to discard at the start), -1 may also be the position of a packet.
pub fn parse_strict(d: &[u8], negative_positions: bool) -> Result<Vec<Stream>, String> {
	let pages = parse_pages(d)?;
	let mut out: Vec<Stream> = vec![];
	let mut cur: Vec<Page> = vec![];
	let n = pages.len();
	for (i, p) in pages.into_iter().enumerate() {
		if cur.is_empty() {
			if p.flags & BOS == 0 {
				return Err(format!("page {i}: no BOS flag at the start of a stream"));
			}
			if out.iter().any(|s| s.serial == p.serial) {
				return Err(format!("page {i}: serial {:#x} reused", p.serial));
			}
		} else {
			if p.flags & BOS != 0 {
				return Err(format!("page {i}: unexpected BOS flag"));
			}
			if p.serial != cur[0].serial {
				return Err(format!("page {i}: serial {:#x} inside stream {:#x}", p.serial, cur[0].serial));
			}
		}
		if p.seq as usize != cur.len() {
			return Err(format!("page {i}: sequence number {} instead of {}", p.seq, cur.len()));
		}
		if p.segs.is_empty() {
			return Err(format!("page {i}: without segments"));
		}
		if p.ends_packet() != (p.gp != -1) && !(p.ends_packet() && negative_positions) {
			return Err(format!("page {i}: granule position {} with {} packet ends", p.gp, p.packet_ends()));
		}
		let eos = p.flags & EOS != 0;
		cur.push(p);
		if eos {
			let s = std::mem::take(&mut cur);
			out.push(assemble(s[0].serial, s)?);
		} else if i + 1 == n {
			return Err("last stream has no EOS flag".into());
		}
	}
	Ok(out)
}
