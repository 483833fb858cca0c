//! Properties of a single valid stream: C01 to C07.

use super::common::*;
use crate::checks::{self, Loss};
use crate::engine::*;
use crate::gen::{self, Profile, VStream};
use crate::model::Stream;
use crate::sut::Cfg;

type Oracle = fn(&Case, &mut Cx) -> CaseResult;

/// Whether the property demands that valid streams are processed at all.
#[derive(Clone, Copy)]
struct Must(bool);

fn generated(t: &mut Tape, cx: &mut Cx, p: &Profile, real: bool, cfg: Cfg, o: Oracle, must: Must) -> CaseResult {
	let s = if real { gen_real(t, p, 7) } else { gen::gen_stream(t, p, 7) };
	judge(cx, Some(&s), s.encode(), cfg, o, must)
}

fn judge(cx: &mut Cx, s: Option<&VStream>, input: Vec<u8>, cfg: Cfg, o: Oracle, must: Must) -> CaseResult {
	if let Some(s) = s {
		s.classify(cx);
	}
	let Some(c) = accepted(cx, input, cfg, must.0)? else { return Ok(()) };
	cx.sample = Some(format!("{} bytes; {}; settings {:?}", c.input.len(), c.ins.iter().map(|s| s.describe()).collect::<Vec<_>>().join(" + "), c.cfg));
	o(&c, cx).map_err(|f| c.explain(f))
}

fn corpus(t: &mut Tape, cx: &mut Cx, o: Oracle, must: Must) -> CaseResult {
	let (name, data) = CORPUS[t.index as usize % VALID];
	let k = t.index as usize / VALID;
	let cfg = Cfg { ignore_start: k % 2 == 1, vendor: k % 5, delete_comments: k % 3 == 2, ..Cfg::default() };
	cx.label(name);
	judge(cx, None, data.to_vec(), cfg, o, must)
}

macro_rules! campaigns {
	($oracle:expr, $must:expr, $profile:expr, $q:expr, $th:expr) => {{
		fn many(t: &mut Tape, cx: &mut Cx) -> CaseResult {
			let cfg = Cfg::draw_any(t);
			let s = gen::gen_many(t);
			cx.label_if(s.audio.len() > 65_535, "more than 65535 audio packets");
			judge(cx, Some(&s), s.encode(), cfg, $oracle, Must($must))
		}
		fn wide(t: &mut Tape, cx: &mut Cx) -> CaseResult {
			let cfg = Cfg::draw_any(t);
			let s = if t.chance(1, 12) { gen::gen_dictionary(t) } else { gen::gen_wide(t) };
			judge(cx, Some(&s), s.encode(), cfg, $oracle, Must($must))
		}
		fn long(t: &mut Tape, cx: &mut Cx) -> CaseResult {
			let cfg = Cfg::draw_any(t);
			let s = gen::gen_long_packets(t);
			let r = &s.setup.residues[0];
			let n = s.audio.iter().map(|a| a.dec.info.blocksize.unwrap_or(0) as u64 / 2 * if r.typ == 2 { s.id.channels as u64 } else { 1 }).max().unwrap_or(0);
			let parts = n.min(r.end as u64).saturating_sub(r.begin as u64) / r.psize as u64;
			cx.label_if(parts > 65_535, "more than 65535 partitions in a vector");
			cx.label_if(s.audio.iter().any(|a| a.bytes.len() > 65_025), "packets of several pages");
			cx.label_if(s.audio.iter().any(|a| a.bytes.len() > 1_000_000), "packets of more than 1 MB");
			judge(cx, Some(&s), s.encode(), cfg, $oracle, Must($must))
		}
		fn syn(t: &mut Tape, cx: &mut Cx) -> CaseResult {
			let cfg = Cfg::draw_any(t);
			generated(t, cx, &$profile, false, cfg, $oracle, Must($must))
		}
		fn real(t: &mut Tape, cx: &mut Cx) -> CaseResult {
			let cfg = Cfg::draw_any(t);
			generated(t, cx, &$profile, true, cfg, $oracle, Must($must))
		}
		fn others(t: &mut Tape, cx: &mut Cx) -> CaseResult {
			let cfg = Cfg::draw_any(t);
			let Some((input, must)) = super::wild::wild(t, cx) else { return Ok(()) };
			judge(cx, None, input, cfg, $oracle, Must($must && must))
		}
		fn files(t: &mut Tape, cx: &mut Cx) -> CaseResult {
			corpus(t, cx, $oracle, Must($must))
		}
		vec![
			enumeration("corpus", VALID as u64 * 10, files),
			campaign("streams", $q, $th, syn),
			campaign("real-headers", $q / 8, $th / 8, real),
			campaign("other-files", $q / 2, $th / 2, others),
			campaign("many-packets", 40, 800, many),
			campaign("largest-setups", 1_200, 16_000, wide),
			campaign("longest-packets", 60, 1_000, long)
		]
	}};
}

fn pairs(c: &Case) -> impl Iterator<Item = (&Stream, &Stream)> {
	c.ins.iter().zip(&c.outs)
}

fn c01(c: &Case, cx: &mut Cx) -> CaseResult {
	for (i, o) in pairs(c) {
		let loss = checks::lossless(i, o)?;
		checks::headers_preserved(i, o)?;
		match loss {
			Loss::None => (),
			Loss::PaddingDecodes(n) => {
				cx.label("known finding: padding bits of an early-ended packet decode");
				if !crate::known::listed("C01", "early-padding") {
					return fail("padding-decodes", format!("{n} packets that end early decode additional symbols from padding bits"));
				}
				continue;
			}
		}
		cx.nontrivial |= i.codewords() >= 20;
		pcm(i, o, cx)?;
	}
	Ok(())
}

/// Differential PCM decode with an independent decoder.
fn pcm(i: &Stream, o: &Stream, cx: &mut Cx) -> CaseResult {
	use lewton::audio::{read_audio_packet_generic, PreviousWindowRight};
	use lewton::header::*;
	// lewton ignores books for the eighth pass
	let eighth = i.setup().residues.iter().any(|r| r.books.iter().any(|b| b[7].is_some()));
	// and computes vectors in single precision, where words of equal value can overflow differently
	let extreme = |w: u32| !(680..=880).contains(&(w >> 21 & 0x3ff)) && w != 0;
	let vectors = i.setup().books.iter().chain(&o.setup().books).any(|b| b.lookup > 0 && (extreme(b.min) || extreme(b.delta)));
	if eighth || vectors {
		cx.label("pcm: not supported by lewton");
		return Ok(());
	}
	let tables: usize = i.setup().books.iter().filter(|b| b.lookup > 0).map(|b| b.lens.len() * b.dims as usize).sum();
	if tables > 4_000_000 || i.ident.channels > 16 || i.audio.len() > 80 || i.codewords() > 60_000 {
		cx.label("pcm: too big");
		return Ok(());
	}
	let open = |s: &Stream| -> Result<(IdentHeader, SetupHeader), String> {
		let id = read_header_ident(&s.packets[0].data).map_err(|e| format!("{e:?}"))?;
		let setup = read_header_setup(&s.packets[2].data, id.audio_channels, (id.blocksize_0, id.blocksize_1)).map_err(|e| format!("{e:?}"))?;
		Ok((id, setup))
	};
	let decode = |s: &Stream, only_kept: bool| -> Result<Vec<Vec<Vec<f32>>>, String> {
		let (id, setup) = open(s)?;
		let mut pwr = PreviousWindowRight::new();
		let mut out = vec![];
		for (n, p) in s.packets[3..].iter().enumerate() {
			if only_kept && s.audio[n].fate == crate::audio::Fate::Dropped {
				continue;
			}
			let v: Vec<Vec<f32>> = read_audio_packet_generic(&id, &setup, &p.data, &mut pwr).map_err(|e| format!("{e:?}"))?;
			out.push(v);
		}
		Ok(out)
	};
	let run = |s: &Stream| crate::sut::catch(|| decode(s, true));
	let a = match run(i) {
		crate::sut::Outcome::Ok(a) => a,
		e => {
			cx.label("pcm: lewton does not decode the input");
			if std::env::var_os("OVVERIF_DEBUG").is_some() {
				eprintln!("lewton input: {}", e.brief());
			}
			return Ok(());
		}
	};
	let b = match run(o) {
		crate::sut::Outcome::Ok(b) => b,
		e => {
			if std::env::var_os("OVVERIF_DEBUG").is_some() {
				eprintln!("lewton output: {}", e.brief());
			}
			cx.label("pcm: lewton does not decode the output");
			return Ok(());
		}
	};
	cx.label("pcm: compared");
	if a.len() != b.len() {
		return fail("pcm-count", format!("{} PCM blocks became {}", a.len(), b.len()));
	}
	let mut sound = false;
	for (n, (x, y)) in a.iter().zip(&b).enumerate() {
		let same = x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(x, y)| x.to_bits() == y.to_bits()));
		sound |= x.iter().flatten().any(|v| *v != 0.0);
		if !same {
			return fail("pcm-differs", format!("decoded PCM of audio packet {n} differs"));
		}
	}
	cx.label_if(sound, "pcm: not silent");
	Ok(())
}

fn c02(c: &Case, cx: &mut Cx) -> CaseResult {
	for (i, o) in pairs(c) {
		checks::headers_preserved(i, o)?;
		cx.nontrivial |= i.setup().books.iter().any(|b| !b.mults.is_empty());
	}
	Ok(())
}

fn c03(c: &Case, cx: &mut Cx) -> CaseResult {
	cx.nontrivial = c.ins.iter().any(|i| i.codewords() >= 5);
	let padding: Vec<Vec<usize>> = pairs(c).map(|(i, o)| checks::early_padding_all(i, o)).collect();
	let listed = crate::known::listed("C03", "early-padding");
	let mut excused = 0;
	let r = checks::conforming(&c.output, c.negative_positions(), &mut |s, k| {
		let known = listed && padding[s].contains(&k);
		excused += known as u64;
		known
	});
	cx.label_if(excused > 0, "known finding: padding bits of an early-ended packet are an unassigned codeword");
	r
}

fn c04(c: &Case, cx: &mut Cx) -> CaseResult {
	for (i, o) in pairs(c) {
		let spread = checks::optimal(i, o)?;
		cx.nontrivial |= spread > 0;
		cx.label_if(spread > 0, "codewords of several lengths");
	}
	Ok(())
}

fn c05(c: &Case, cx: &mut Cx) -> CaseResult {
	for (i, o) in pairs(c) {
		checks::tight_packets(i, o)?;
		let odd = i.audio.iter().zip(&i.packets[3..]).any(|(a, p)| a.fate != crate::audio::Fate::Full || a.bits.div_ceil(8) != p.data.len());
		cx.nontrivial |= odd;
		cx.label_if(odd, "dropped, early-ended or padded packet");
	}
	Ok(())
}

fn c06(c: &Case, cx: &mut Cx) -> CaseResult {
	cx.nontrivial = c.outs.iter().any(|o| o.pages.len() > 3);
	cx.label_if(c.outs.iter().any(|o| o.pages.len() > 3), "several audio pages");
	cx.label_if(c.outs.iter().any(|o| o.packets[2].page > 1), "headers over several pages");
	checks::tight_pages(&c.output)
}

fn c07(c: &Case, cx: &mut Cx) -> CaseResult {
	for (i, o) in pairs(c) {
		checks::granules(i, o, &c.cfg)?;
		cx.nontrivial |= o.audio.len() > 2;
		let g = checks::input_granules(i);
		cx.label_if(g.len() > 1, "ambiguous because of undecodable packets");
		if let [g] = &g[..] {
			cx.label_if(g.offset > 0, "positive start offset");
			cx.label_if(g.offset < 0, "negative start offset");
			let first = |s: &Stream| s.packets[3..].iter().take_while(|p| p.page == s.packets[3].page).count();
			let same = i.kept().len() == i.audio.len();
			cx.label_if(same && i.audio.len() > 1 && first(o) < first(i), "first audio page ends earlier than in the input");
			cx.label_if(o.pages.last().unwrap().gp == g.last, "final position kept");
			cx.label_if(o.pages.last().unwrap().gp != g.last, "final position changed");
		}
	}
	Ok(())
}

pub fn props() -> Vec<Prop> {
	vec![
		Prop {
			id: "C01",
			level: "exploration",
			rule: "generated streams (all legal setups and packet contents, packets of over a megabyte), generated packets for headers of real files, and real files; events decoded by the reference decoder and PCM decoded by lewton are compared; non-trivial: at least 20 codewords decode",
			assumptions: &["the reference decoder written from the Vorbis I specification is right where it and the code agree", "PCM is compared only where lewton decodes the input"],
			campaigns: {
				let mut c = campaigns!(c01, true, Profile::default(), 24_000, 200_000);
				c.push(campaign("pcm", 16_000, 80_000, |t, cx| {
					let cfg = Cfg::draw_any(t);
					generated(t, cx, &Profile { lewton: true, early: false, extreme: 40, max_channels: 4, max_packets: 8, max_bits: 40_000, ..Profile::default() }, false, cfg, c01, Must(true))
				}));
				c
			}
		},
		Prop {
			id: "C02",
			level: "exploration",
			rule: "generated headers and headers of real files; non-trivial: a codebook with a vector lookup table",
			assumptions: &["the reference decoder written from the Vorbis I specification is right where it and the code agree"],
			campaigns: campaigns!(c02, false, Profile { max_packets: 4, ..Profile::default() }, 30_000, 300_000)
		},
		Prop {
			id: "C03",
			level: "exploration",
			rule: "generated streams and real files; the output is judged by a strict Ogg parser and a strict Vorbis header and audio packet decoder; non-trivial: at least 5 codewords decode",
			assumptions: &["a file whose first packets have negative positions may keep -1 on pages that end a packet"],
			campaigns: campaigns!(c03, false, Profile::default(), 24_000, 200_000)
		},
		Prop {
			id: "C04",
			level: "exploration",
			rule: "generated streams and real files, and streams of millions of symbols with Fibonacci-like counts; the cost is compared with Huffman's algorithm, or package-merge where 32 bits limit it; non-trivial: a codebook whose optimal codewords have several lengths",
			assumptions: &["the reference decoder written from the Vorbis I specification is right where it and the code agree"],
			campaigns: {
				let mut c = campaigns!(c04, false, Profile::default(), 24_000, 200_000);
				c.push(Campaign { threads: 4, ..campaign("deep", 4, 30, super::deep::deep) });
				c
			}
		},
		Prop {
			id: "C05",
			level: "exploration",
			rule: "generated streams and real files; packet sizes are compared with the bits the reference decoder consumes; non-trivial: a dropped, early-ended or padded audio packet",
			assumptions: &["the reference decoder written from the Vorbis I specification is right where it and the code agree"],
			campaigns: campaigns!(c05, true, Profile::default(), 24_000, 200_000)
		},
		Prop {
			id: "C06",
			level: "exploration",
			rule: "generated streams of up to 400 packets and real files; non-trivial: an output with more than three pages",
			assumptions: &[],
			campaigns: campaigns!(c06, false, Profile { max_packets: 400, ..Profile::default() }, 12_000, 100_000)
		},
		Prop {
			id: "C07",
			level: "exploration",
			rule: "generated streams with start offsets, end trimming and wrong positions in the middle, streams whose packets grow when optimized so that pages end elsewhere, and real files; non-trivial: more than two audio packets",
			assumptions: &["positions are judged modulo the ambiguity that undecodable packets cause in the input"],
			campaigns: {
				let mut c = campaigns!(c07, true, Profile::default(), 24_000, 200_000);
				c.push(campaign("wrong-positions", 12_000, 100_000, |t, cx| {
					let cfg = Cfg::draw_any(t);
					generated(t, cx, &Profile { wrong_gps: true, dropped: false, max_bits: 1500, max_packets: 80, ..Profile::default() }, false, cfg, c07, Must(true))
				}));
				c.push(campaign("growing-packets", 1_200, 12_000, |t, cx| {
					let cfg = Cfg::draw_any(t);
					let s = gen::gen_growing(t);
					judge(cx, Some(&s), s.encode(), cfg, c07, Must(true))
				}));
				c
			}
		}
	]
}
