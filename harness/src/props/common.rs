use crate::engine::*;
use crate::gen::{self, Profile, VStream};
use crate::model::{self, Stream};
use crate::sut::{self, Cfg, Outcome};
use crate::vorbis::*;
use std::sync::OnceLock;

pub const CORPUS: [(&str, &[u8]); 11] = [
	("6ch", include_bytes!("../../../corpus/44100hz_500ms_6ch_sine_waves.ogg")),
	("aotuv", include_bytes!("../../../corpus/44100hz_500ms_stereo_400hz_sine_wave_aotuv.ogg")),
	("skeleton", include_bytes!("../../../corpus/44100hz_500ms_stereo_400hz_sine_wave_skeleton.ogg")),
	("uncoupled", include_bytes!("../../../corpus/44100hz_500ms_stereo_uncoupled_400hz_sine_wave.ogg")),
	("chained", include_bytes!("../../../corpus/8khz_2x500ms_mono_400hz_sine_wave_chained.ogg")),
	("8khz", include_bytes!("../../../corpus/8khz_500ms_mono_400hz_sine_wave.ogg")),
	("comments", include_bytes!("../../../corpus/8khz_500ms_mono_400hz_sine_wave_comments.ogg")),
	("noise", include_bytes!("../../../corpus/noise.ogg")),
	("zero_bytes", include_bytes!("../../../corpus/zero_bytes_last_audio_packet.ogg")),
	("opus", include_bytes!("../../../corpus/44100hz_500ms_mono_440hz_sine_wave_ogg_opus.ogg")),
	("crc_mismatch", include_bytes!("../../../corpus/crc_mismatch_8khz_500ms_mono_400hz_sine_wave.ogg"))
];
/// Number of corpus files that hold valid Vorbis.
pub const VALID: usize = 9;

pub struct RealHeaders {
	pub id: Ident,
	pub comments: Comments,
	pub setup: Setup
}

/// Headers of real files, to generate audio packets for.
pub fn real_headers() -> &'static Vec<RealHeaders> {
	static H: OnceLock<Vec<RealHeaders>> = OnceLock::new();
	H.get_or_init(|| {
		CORPUS[..VALID]
			.iter()
			.map(|(_, d)| {
				let s = model::vorbis_streams(d).unwrap().into_iter().next().unwrap();
				let (v, c, _) = Comments::parse_lenient(&s.packets[1].data);
				RealHeaders {
					id: s.ident.clone(),
					comments: Comments { vendor: v.unwrap(), comments: c, framing: Some(1), trailing: vec![] },
					setup: s.parsed.setup.clone()
				}
			})
			.collect()
	})
}

pub fn gen_real(t: &mut Tape, p: &Profile, serial: u32) -> VStream {
	let h = t.pick(real_headers());
	let mut id = h.id.clone();
	let mut comments = h.comments.clone();
	if t.chance(1, 4) {
		comments = gen::gen_comments(t, p);
	}
	if t.chance(1, 4) {
		id.bs0 = t.range(6, 13) as u8;
		id.bs1 = t.range(id.bs0 as u64, 13) as u8;
	}
	gen::gen_stream_from(t, p, serial, id, comments, h.setup.clone())
}

/// A generated or corpus input, what the remuxer made of it, and the reference view of both.
pub struct Case {
	pub input: Vec<u8>,
	pub cfg: Cfg,
	pub ins: Vec<Stream>,
	pub output: Vec<u8>,
	pub outs: Vec<Stream>
}

impl Case {
	pub fn negative_positions(&self) -> bool {
		self.ins.iter().flat_map(|s| &s.pages).any(|p| p.gp < 0 && p.ends_packet())
	}
	pub fn explain(&self, f: Failure) -> Failure {
		let mut f = f.with("input.ogg", &self.input).with("output.ogg", &self.output);
		f.msg = format!("{} [settings {:?}]", f.msg, self.cfg);
		f
	}
}

/// Remuxes a valid input. `None` if the remuxer does not accept it and `must` does not demand that.
pub fn accepted(cx: &mut Cx, input: Vec<u8>, cfg: Cfg, must: bool) -> Result<Option<Case>, Failure> {
	cx.hash = hash_bytes(&input);
	let ins = match model::vorbis_streams(&input) {
		Ok(s) => s,
		Err(e) => panic!("the reference does not accept a generated stream: {e}")
	};
	match sut::remux(&cfg, &input) {
		Outcome::Ok(output) => match model::output_streams(&output) {
			Ok(outs) if outs.len() == ins.len() => Ok(Some(Case { input, cfg, ins, output, outs })),
			Ok(outs) => Err(Failure::new(
				"stream-count",
				format!("{} Vorbis streams in, {} out [settings {:?}]", ins.len(), outs.len(), cfg)
			)
			.with("input.ogg", &input)
			.with("output.ogg", &output)),
			Err(e) => Err(Failure::new("output-unreadable", format!("the output is no Vorbis file: {e} [settings {cfg:?}]"))
				.with("input.ogg", &input)
				.with("output.ogg", &output))
		},
		e if must && !e.is_ok() => {
			Err(Failure::new("not-processed", format!("a valid file is not processed: {} [settings {cfg:?}]", e.brief())).with("input.ogg", &input))
		}
		Outcome::Err(e) => {
			cx.label("rejected by the remuxer");
			if std::env::var_os("OVVERIF_DEBUG").is_some() {
				eprintln!("rejected: {e}");
				let _ = std::fs::write("/tmp/rejected.ogg", &input);
			}
			Ok(None)
		}
		// With other build settings, a panic because of an overflow would be a wrong output
		Outcome::Panic(e) => {
			Err(Failure::new("panic", format!("a valid file makes it panic: {e} [settings {cfg:?}]")).with("input.ogg", &input))
		}
	}
}
