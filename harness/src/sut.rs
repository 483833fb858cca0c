//! Wrappers around the code under test.

use optivorbis::remuxer::ogg_to_ogg::{OggVorbisStreamMangler, OggVorbisStreamPassthroughMangler, Settings};
use optivorbis::{OggToOgg, Remuxer, VorbisCommentFieldsAction, VorbisOptimizerSettings, VorbisVendorStringAction};
use std::io::{Cursor, Read, Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
	pub randomize: bool,
	pub serial: u32,
	pub ignore_start: bool,
	pub err_none: bool,
	pub verify: bool,
	/// Index in VENDOR_ACTIONS
	pub vendor: usize,
	pub delete_comments: bool
}

impl Default for Cfg {
	fn default() -> Self {
		Cfg { randomize: false, serial: 0, ignore_start: false, err_none: true, verify: true, vendor: 0, delete_comments: false }
	}
}

pub const VENDOR_ACTIONS: [VorbisVendorStringAction; 5] = [
	VorbisVendorStringAction::Copy,
	VorbisVendorStringAction::AppendTag,
	VorbisVendorStringAction::AppendShortTag,
	VorbisVendorStringAction::Replace,
	VorbisVendorStringAction::Empty
];
pub const VENDOR_NAMES: [&str; 5] = ["copy", "appendTag", "appendShortTag", "replace", "empty"];

impl Cfg {
	/// What the documentation says applies when nothing is set.
	pub const DOCUMENTED: Cfg =
		Cfg { randomize: true, serial: 0, ignore_start: false, err_none: true, verify: true, vendor: 1, delete_comments: false };
	pub fn draw(t: &mut crate::engine::Tape) -> Cfg {
		if t.chance(1, 16) {
			return Cfg { randomize: false, ..Cfg::DOCUMENTED };
		}
		Cfg {
			randomize: false,
			serial: t.edge(0, u32::MAX as u64) as u32,
			ignore_start: t.chance(1, 4),
			err_none: !t.chance(1, 4),
			verify: !t.chance(1, 4),
			vendor: t.below(5) as usize,
			delete_comments: t.chance(1, 4)
		}
	}
	/// As `draw`, but stream serials may be random too. For checks that do not compare serials.
	pub fn draw_any(t: &mut crate::engine::Tape) -> Cfg {
		if t.chance(1, 10) {
			return Cfg::DOCUMENTED;
		}
		let randomize = t.chance(1, 5);
		Cfg { randomize, ..Cfg::draw(t) }
	}
	/// The output without what random serials make different from run to run.
	pub fn neutral(&self, mut out: Vec<u8>) -> Vec<u8> {
		if self.randomize {
			for (a, _) in crate::ogg::page_ranges(&out) {
				out[a + 14..a + 18].fill(0);
				out[a + 22..a + 26].fill(0);
			}
		}
		out
	}
	/// Options whose value is the documented default are left as the code under test has them by default.
	pub fn settings<M: OggVorbisStreamMangler>(&self, m: M) -> Settings<M> {
		let d = Settings::default();
		Settings {
			randomize_stream_serials: if self.randomize { d.randomize_stream_serials } else { false },
			first_stream_serial_offset: if self.serial == 0 { d.first_stream_serial_offset } else { self.serial },
			ignore_start_sample_offset: if self.ignore_start { true } else { d.ignore_start_sample_offset },
			error_on_no_vorbis_streams: if self.err_none { d.error_on_no_vorbis_streams } else { false },
			verify_ogg_page_checksums: if self.verify { d.verify_ogg_page_checksums } else { false },
			vorbis_stream_mangler: m
		}
	}
	pub fn optimizer(&self) -> VorbisOptimizerSettings {
		let mut o = VorbisOptimizerSettings::default();
		if VENDOR_ACTIONS[self.vendor] != VorbisVendorStringAction::AppendTag {
			o.vendor_string_action = VENDOR_ACTIONS[self.vendor];
		}
		if self.delete_comments {
			o.comment_fields_action = VorbisCommentFieldsAction::Delete;
		}
		o
	}
	pub fn remuxer(&self) -> OggToOgg<OggVorbisStreamPassthroughMangler> {
		if *self == Cfg::DOCUMENTED {
			OggToOgg::new_with_defaults()
		} else {
			OggToOgg::new(self.settings(OggVorbisStreamPassthroughMangler), self.optimizer())
		}
	}
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome<T> {
	Ok(T),
	Err(String),
	Panic(String)
}

impl<T> Outcome<T> {
	pub fn brief(&self) -> String {
		match self {
			Outcome::Ok(_) => "Ok".into(),
			Outcome::Err(e) => format!("Err({e})"),
			Outcome::Panic(e) => format!("panic: {e}")
		}
	}
	pub fn is_ok(&self) -> bool {
		matches!(self, Outcome::Ok(_))
	}
}

thread_local! {
	static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
	static IN_SUT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
	let default = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |info| {
		if IN_SUT.with(|s| s.get()) {
			PANIC_MSG.with(|p| *p.borrow_mut() = Some(info.to_string()));
		} else {
			default(info);
		}
	}));
}

/// The code under test logs what it does. Building and formatting its messages must not fail either, so some
/// cases run with a logger that does so.
struct Logger;

thread_local! {
	static LOGGING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

impl log::Log for Logger {
	fn enabled(&self, _: &log::Metadata) -> bool {
		LOGGING.with(|l| l.get())
	}
	fn log(&self, record: &log::Record) {
		struct Nowhere;
		impl std::fmt::Write for Nowhere {
			fn write_str(&mut self, s: &str) -> std::fmt::Result {
				std::hint::black_box(s);
				Ok(())
			}
		}
		if LOGGING.with(|l| l.get()) {
			let _ = std::fmt::write(&mut Nowhere, *record.args());
		}
	}
	fn flush(&self) {}
}

pub fn set_logging(on: bool) {
	static INIT: std::sync::Once = std::sync::Once::new();
	INIT.call_once(|| {
		log::set_logger(&Logger).expect("logger");
		log::set_max_level(log::LevelFilter::Trace);
	});
	LOGGING.with(|l| l.set(on));
}

/// Runs code under test, turning a panic into an outcome.
pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Outcome<T> {
	let call = crate::crash::call();
	let r = catch(f);
	drop(call);
	r
}

/// Turns a panic of other code than the code under test into an outcome.
pub fn catch<T>(f: impl FnOnce() -> Result<T, String>) -> Outcome<T> {
	let prev = IN_SUT.with(|s| s.replace(true));
	let r = catch_unwind(AssertUnwindSafe(f));
	IN_SUT.with(|s| s.set(prev));
	match r {
		Ok(Ok(v)) => Outcome::Ok(v),
		Ok(Err(e)) => Outcome::Err(e),
		Err(_) => Outcome::Panic(PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default())
	}
}

pub fn remux_io<R: Read + Seek, W: Write>(cfg: &Cfg, src: R, sink: W) -> Outcome<W> {
	guard(|| cfg.remuxer().remux(src, sink).map_err(|e| e.to_string()))
}

pub fn remux(cfg: &Cfg, input: &[u8]) -> Outcome<Vec<u8>> {
	if crate::crash::probing() {
		if let Ok(d) = std::env::var("OVVERIF_DUMP") {
			let _ = std::fs::write(format!("{d}/input.ogg"), input);
			let _ = std::fs::write(format!("{d}/settings.txt"), format!("{cfg:?}\n"));
		}
	}
	remux_io(cfg, Cursor::new(input), Vec::new())
}
