//! Runs the remuxer as it is in builds other than the harness's own: with debug assertions, without optional
//! features, for 32-bit WebAssembly. A request is the settings (10 bytes) and the file; an answer is 0 and the
//! output, or 1 and the error message (2 and a message if it panicked).

use optivorbis::remuxer::ogg_to_ogg::{OggVorbisStreamPassthroughMangler, Settings};
use optivorbis::{OggToOgg, Remuxer, VorbisCommentFieldsAction, VorbisOptimizerSettings, VorbisVendorStringAction};
use std::io::Cursor;

pub fn run(request: &[u8]) -> Vec<u8> {
	let (s, d) = request.split_at(10);
	let mut o = VorbisOptimizerSettings::default();
	o.vendor_string_action = match s[8] {
		0 => VorbisVendorStringAction::Copy,
		1 => VorbisVendorStringAction::AppendTag,
		2 => VorbisVendorStringAction::AppendShortTag,
		3 => VorbisVendorStringAction::Replace,
		_ => VorbisVendorStringAction::Empty
	};
	o.comment_fields_action = if s[9] != 0 { VorbisCommentFieldsAction::Delete } else { VorbisCommentFieldsAction::Copy };
	let r = OggToOgg::new(
		Settings {
			randomize_stream_serials: s[0] != 0,
			ignore_start_sample_offset: s[1] != 0,
			error_on_no_vorbis_streams: s[2] != 0,
			verify_ogg_page_checksums: s[3] != 0,
			first_stream_serial_offset: u32::from_le_bytes(s[4..8].try_into().unwrap()),
			vorbis_stream_mangler: OggVorbisStreamPassthroughMangler
		},
		o
	);
	match r.remux(Cursor::new(d), vec![0]) {
		Ok(v) => v,
		Err(e) => {
			let mut v = vec![1];
			v.extend(e.to_string().bytes());
			v
		}
	}
}

#[cfg(target_arch = "wasm32")]
mod wasm {
	#[no_mangle]
	pub extern "C" fn ov_alloc(n: usize) -> *mut u8 {
		let mut v: Vec<u8> = Vec::with_capacity(n);
		let p = v.as_mut_ptr();
		std::mem::forget(v);
		p
	}
	/// # Safety
	/// `p` comes from `ov_alloc(n)`.
	#[no_mangle]
	pub unsafe extern "C" fn ov_free(p: *mut u8, n: usize) {
		drop(Vec::from_raw_parts(p, 0, n));
	}
	/// # Safety
	/// `p` comes from `ov_alloc(n)`, and `out` from `ov_alloc(8)`.
	#[no_mangle]
	pub unsafe extern "C" fn ov_run(p: *const u8, n: usize, out: *mut u32) {
		let mut r = super::run(std::slice::from_raw_parts(p, n));
		r.shrink_to_fit();
		*out = r.as_mut_ptr() as u32;
		*out.add(1) = r.len() as u32;
		std::mem::forget(r);
	}
	#[link(wasm_import_module = "ov")]
	extern "C" {
		fn random(p: *mut u8, n: usize);
	}
	#[no_mangle]
	unsafe extern "Rust" fn __getrandom_v03_custom(p: *mut u8, n: usize) -> Result<(), getrandom::Error> {
		random(p, n);
		Ok(())
	}
}
