//! Inputs beyond the shapes the generators of streams give: changed fields, chained and multiplexed
//! files, irregular streams.

use super::common::*;
use super::validity::{self, biggest_tree, Verdict};
use crate::audio::{self, Codes};
use crate::engine::*;
use crate::gen::{self, Profile, VStream};
use crate::model;
use crate::ogg;
use crate::vorbis::*;

fn get_bits(d: &[u8], pos: usize, width: u32) -> u64 {
	(0..width as usize).fold(0, |v, i| v | (((d[(pos + i) / 8] >> ((pos + i) % 8)) & 1) as u64) << i)
}

fn set_bits(d: &mut [u8], pos: usize, width: u32, v: u64) {
	for i in 0..width as usize {
		let m = 1 << ((pos + i) % 8);
		if v >> i & 1 != 0 {
			d[(pos + i) / 8] |= m;
		} else {
			d[(pos + i) / 8] &= !m;
		}
	}
}

/// The packets of the stream after some fields of a header got other values, and what was done.
/// Audio packets are encoded anew if the setup stays usable.
pub fn change_fields(t: &mut Tape, s: &VStream) -> (Vec<Vec<u8>>, String) {
	let mut packets = validity::packets_of(s);
	let which = if t.chance(1, 12) { 0 } else { 2 };
	let fields: Vec<(usize, u32)> = if which == 2 {
		s.setup.fields(s.id.channels)[7..].to_vec()
	} else {
		vec![(56, 32), (88, 8), (96, 32), (128, 32), (160, 32), (192, 32), (224, 4), (228, 4), (232, 8)]
	};
	let d = &mut packets[which];
	let n = fields.len() as u64;
	let mut what = vec![];
	for _ in 0..t.range(1, 3) {
		// Most fields belong to codebooks, the others are at the end
		let i = if t.chance(1, 2) { t.below(n) } else { n - 1 - t.below(n.min(120)) } as usize;
		let run = match t.weighted(&[5, 2, 1]) {
			0 => 1,
			1 => t.size(2, 3),
			_ => t.size(2, 12)
		};
		for (pos, width) in fields.iter().copied().skip(i).take(run) {
			let max = if width >= 64 { u64::MAX } else { (1 << width) - 1 };
			let old = get_bits(d, pos, width);
			let new = match t.weighted(&[2, 2, 2, 2, 1, 1, 1]) {
				0 => old.wrapping_add(1) & max,
				1 => old.wrapping_sub(1) & max,
				2 => 0,
				3 => max,
				4 => t.range(0, max),
				5 => max.saturating_sub(t.range(1, 3)),
				_ => (1 << t.below(width as u64)) & max
			};
			set_bits(d, pos, width, new);
			what.push(format!("{old}->{new} ({width} bits at {pos})"));
		}
	}
	let what = format!("fields of header {which} changed: {}", what.join(", "));
	let encode = t.chance(4, 5);
	if let (Some(id), true) = (Ident::parse(&packets[0]), encode) {
		if id.invalid().is_none() && (which == 0 || id.channels == s.id.channels) {
			if let Ok(p) = parse_setup(&packets[2], id.channels) {
				if let Some(codes) = Codes::new(&p.setup) {
					for (n, b) in packets.iter_mut().skip(3).enumerate() {
						let style = audio::Style {
							kind: t.range(0, 5) as u8,
							seed: t.seed(),
							energy: 7,
							mode: n as u32 % p.setup.modes.len() as u32,
							max_bits: 1200
						};
						*b = audio::encode(&id, &p.setup, &codes, style);
					}
				}
			}
		}
	}
	(packets, what)
}

/// Pages for these packets, with positions meant for the stream's.
pub fn pages_of(t: &mut Tape, p: &Profile, packets: &[Vec<u8>], s: &VStream) -> Vec<u8> {
	let gps = gen::nominal_gps(&s.audio, 0, 0);
	let mut groups: Vec<Vec<(&[u8], i64)>> = vec![vec![], vec![], vec![]];
	for (i, d) in packets.iter().enumerate() {
		let gp = if i < 3 { 0 } else { gps.get(i - 3).copied().unwrap_or(7777) };
		groups[if i == 0 { 0 } else if i < 3 { 1 } else { 2 }].push((d, gp));
	}
	let lay = gen::gen_layout(t, p);
	ogg::encode_pages(&gen::paginate(t, &groups, &lay, 5))
}

/// A file of one of these kinds, and whether every sound implementation has to accept it. `None`
/// if what was drawn is not valid.
pub fn wild(t: &mut Tape, cx: &mut Cx) -> Option<(Vec<u8>, bool)> {
	let mut p = Profile::small();
	match t.weighted(&[5, 1, 1]) {
		0 => (),
		1 => p.max_packets = 300,
		_ => {
			p.max_packets = 40;
			p.max_bits = 8000;
			p.max_channels = 12;
			p.wrong_gps = true;
		}
	}
	let (d, must) = match t.weighted(&[3, 3, 4, 1]) {
		0 => {
			let (n, f) = (t.size(1, 4), t.size(0, 2));
			cx.label_if(n > 1, "chained");
			cx.label_if(f > 0, "with foreign streams");
			(ogg::encode_pages(&gen::gen_file(t, &p, n, f).pages), true)
		}
		1 => {
			let n = t.range(1, 2) as u32;
			let mut pages = vec![];
			for i in 0..n {
				let (_, b, what, _) = validity::variants(t, &p, 3 * i, i + 1 == n);
				for w in what {
					cx.label(w);
				}
				pages.extend(b);
			}
			(ogg::encode_pages(&pages), false)
		}
		2 => {
			let s = gen::gen_stream(t, &p, 5);
			let mut tries = 0;
			let packets = loop {
				let (packets, _) = change_fields(t, &s);
				if biggest_tree(&packets[2]) <= 3000 && validity::verdict(&packets) == Verdict::Valid {
					break packets;
				}
				tries += 1;
				if tries == 4 {
					cx.label("changed fields, not valid");
					return None;
				}
			};
			cx.label("changed fields");
			(pages_of(t, &p, &packets, &s), true)
		}
		_ => {
			cx.label("underspecified codebooks");
			(gen::gen_stream(t, &Profile { underspecified: true, early: false, ..p }, 5).encode(), true)
		}
	};
	if model::vorbis_streams(&d).is_err() {
		cx.label("not understood by the reference");
		return None;
	}
	Some((d, must))
}
