//! Streams whose symbol counts are skewed enough for unlimited Huffman codewords to exceed 32
//! bits. Needs millions of symbols, so the stream is built and read without the generic model.

use crate::bits::{BitR, BitW};
use crate::engine::*;
use crate::huff::{self, Tree, Walk};
use crate::model;
use crate::ogg;
use crate::sut::{self, Cfg, Outcome};
use crate::vorbis::*;

const CHANNELS: usize = 255;
const PER_PACKET: usize = 4096 * CHANNELS;

/// Counts that make Huffman's algorithm build a chain (Fibonacci-like), slightly perturbed.
fn counts(t: &mut Tape) -> Vec<u64> {
	let n = if t.chance(1, 3) { t.range(26, 33) } else { t.range(34, 36) } as usize;
	let mut c = vec![1u64, 1];
	while c.len() < n {
		let sum = c[c.len() - 1] + c[c.len() - 2];
		let slack = t.below(3) * (c.len() < 12) as u64;
		c.push(sum + slack.min(1));
	}
	// Entries in any order, with unused ones between
	let mut r = Rng::new(t.seed());
	for i in (1..c.len()).rev() {
		c.swap(i, r.below(i as u64 + 1) as usize);
	}
	for _ in 0..t.below(4) {
		let at = r.below(c.len() as u64 + 1) as usize;
		c.insert(at, 0);
	}
	c
}

pub fn deep(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let mut counts = counts(t);
	let mut total: u64 = counts.iter().sum();
	// Fill the last packet with the most frequent symbol
	let top = (0..counts.len()).max_by_key(|i| counts[*i]).unwrap();
	let rest = (PER_PACKET as u64 - total % PER_PACKET as u64) % PER_PACKET as u64;
	counts[top] += rest;
	total += rest;
	// Input codewords: a chain in order of count, with a balanced end
	let mut order: Vec<usize> = (0..counts.len()).filter(|i| counts[*i] > 0).collect();
	order.sort_by_key(|i| std::cmp::Reverse(counts[*i]));
	let n = order.len();
	let mut lens = vec![0u8; counts.len()];
	let chain = n - 8;
	for (k, e) in order.iter().enumerate() {
		lens[*e] = if k < chain { k as u8 + 1 } else { chain as u8 + 3 };
	}
	let codes = huff::assign(&lens).unwrap();
	let big = Book {
		sync: 0x564342,
		dims: 1,
		lens: lens.clone(),
		enc: LenEnc::Sparse,
		lookup: 2,
		min: 0,
		delta: 0x60000001,
		value_bits: 4,
		seq: false,
		mults: (0..lens.len() as u32).map(|i| i % 16).collect()
	};
	let class = Book { lens: vec![1], lookup: 0, mults: vec![], ..big.clone() };
	let setup = Setup {
		books: vec![class, big],
		times: vec![0],
		floors: vec![Floor { typ: 1, mult: 4, range: 4, ..Default::default() }],
		residues: vec![Residue {
			typ: 2,
			begin: 0,
			end: PER_PACKET as u32,
			psize: PER_PACKET as u32,
			classifications: 1,
			classbook: 0,
			books: vec![[Some(1), None, None, None, None, None, None, None]],
			long_cascade: false
		}],
		mappings: vec![Mapping { mux: vec![0; CHANNELS], subs: vec![(0, 0, 0)], ..Default::default() }],
		modes: vec![Mode { big: true, ..Default::default() }],
		framing: true,
		..Default::default()
	};
	let id = Ident { version: 0, channels: CHANNELS as u8, rate: 48000, br_max: 0, br_nom: 0, br_min: 0, bs0: 6, bs1: 13, framing: 1, trailing: vec![] };
	let comments = Comments { framing: Some(1), ..Default::default() };
	// The symbols in a random order with the right counts
	let mut symbols: Vec<u8> = Vec::with_capacity(total as usize);
	for (e, c) in counts.iter().enumerate() {
		symbols.extend(std::iter::repeat(e as u8).take(*c as usize));
	}
	let mut r = Rng::new(t.seed());
	for i in (1..symbols.len()).rev() {
		symbols.swap(i, r.below(i as u64 + 1) as usize);
	}
	let head = |w: &mut BitW| {
		w.put(0, 1 + 2);
		for _ in 0..CHANNELS {
			w.flag(true);
			w.put(0, 12);
		}
		w.flag(false);
	};
	let mut packets = vec![id.encode(), comments.encode(), setup.encode(CHANNELS as u8)];
	for chunk in symbols.chunks(PER_PACKET) {
		let mut w = BitW::default();
		head(&mut w);
		for s in chunk {
			w.code(codes[*s as usize].unwrap(), lens[*s as usize]);
		}
		packets.push(w.buf);
	}
	let groups: Vec<Vec<(&[u8], i64)>> = vec![
		vec![(&packets[0][..], 0)],
		vec![(&packets[1][..], 0), (&packets[2][..], 0)],
		packets[3..].iter().enumerate().map(|(i, p)| (&p[..], 4096 * i as i64)).collect()
	];
	let lay = crate::gen::Layout { targets: (255, 255), split: true, per_packet: false, nil_pages: false, headers_split: false };
	let input = ogg::encode_pages(&crate::gen::paginate(t, &groups, &lay, 1));
	drop(groups);
	cx.hash = hash_bytes(&input);
	cx.nontrivial = true;
	cx.sample = Some(format!("{n} used of {} entries, {total} symbols, {} bytes", counts.len(), input.len()));
	let art = |f: Failure| f.with("input.ogg", &input);
	let out = match sut::remux(&Cfg::default(), &input) {
		Outcome::Ok(o) => o,
		e => return Err(art(Failure::new("deep-not-processed", format!("a stream whose Huffman codewords would exceed 32 bits: {}", e.brief()))))
	};
	let o = match model::demux(&out) {
		Ok(mut s) if s.len() == 1 && s[0].packets.len() == packets.len() => s.remove(0),
		_ => return Err(art(Failure::new("deep-structure", "packets were lost")))
	};
	let parsed = match parse_setup(&o.packets[2].data, CHANNELS as u8) {
		Ok(p) => p,
		Err(e) => return Err(art(Failure::new("deep-setup", e)))
	};
	let b = &parsed.setup.books[1];
	let cost: u128 = counts.iter().zip(&b.lens).map(|(c, l)| *c as u128 * *l as u128).sum();
	let best = huff::optimal_cost(&counts);
	if cost != best || counts.iter().zip(&b.lens).any(|(c, l)| (*c > 0) != (*l > 0)) {
		return Err(art(Failure::new("deep-not-optimal", format!("{cost} bits instead of {best}, lengths {:?}", b.lens))));
	}
	for l in 25..=32 {
		cx.label_if(b.lens.iter().max() == Some(&l), &format!("longest codeword {l} bits"));
	}
	cx.label_if(b.lens.contains(&32), "codewords of the maximum length in the output");
	let tree = Tree::new(&b.lens, &huff::assign(&b.lens).unwrap());
	for (k, chunk) in symbols.chunks(PER_PACKET).enumerate() {
		let p = &o.packets[3 + k].data;
		let mut want = BitW::default();
		head(&mut want);
		let mut r = BitR::new(p);
		for _ in 0..want.nbits {
			r.bit();
		}
		for s in chunk {
			if tree.read(&mut r) != Walk::Entry(*s as u32) {
				return Err(art(Failure::new("deep-symbols", format!("audio packet {k} decodes differently"))));
			}
		}
		if r.pos.div_ceil(8) != p.len() {
			return Err(art(Failure::new("deep-size", format!("audio packet {k} has {} bytes for {} bits", p.len(), r.pos))));
		}
	}
	Ok(())
}
