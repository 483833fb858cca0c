//! Properties of the command-line program: C23 and C24.

use super::child::{remux_in_process, Env};
use super::common::*;
use super::container::{any_input, first_difference, without_serials};
use crate::engine::*;
use crate::gen::{self, Profile};
use crate::ogg;
use crate::sut::{self, Cfg, Outcome};
use optivorbis::remuxer::ogg_to_ogg::Settings;
use optivorbis::{VorbisCommentFieldsAction, VorbisOptimizerSettings, OPTIVORBIS_VERSION_TAG};
use std::ffi::{OsStr, OsString};
use std::fs;
use std::io::Read;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

extern "C" {
	fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
	fn signal(sig: i32, handler: usize) -> usize;
	fn pipe2(fds: *mut [i32; 2], flags: i32) -> i32;
	fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
	fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;
const SIG_IGN: usize = 1;
const O_CLOEXEC: i32 = 0o2000000;
const F_SETPIPE_SZ: i32 = 1031;

fn program() -> OsString {
	std::env::var_os("OVVERIF_CLI").unwrap_or_else(|| format!("{}/.target/cli/release/optivorbis", crate::verif_dir()).into())
}

/// A directory of its own for one case.
struct Scratch(PathBuf);

impl Scratch {
	fn new() -> Scratch {
		static N: AtomicU64 = AtomicU64::new(0);
		let p = std::env::temp_dir().join(format!("ovverif-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
		fs::create_dir(&p).expect("scratch directory");
		Scratch(p)
	}
	fn write(&self, name: &OsStr, data: &[u8]) {
		fs::write(self.0.join(name), data).expect("scratch file");
	}
	fn read(&self, name: &OsStr) -> Option<Vec<u8>> {
		fs::read(self.0.join(name)).ok()
	}
}

impl Drop for Scratch {
	fn drop(&mut self) {
		let _ = fs::remove_dir_all(&self.0);
	}
}

struct Ran {
	code: Option<i32>,
	out: Vec<u8>,
	err: Vec<u8>
}

impl Ran {
	fn brief(&self) -> String {
		let status = self.code.map_or("killed by a signal".into(), |c| format!("status {c}"));
		let err = String::from_utf8_lossy(&self.err);
		format!("{status}, {} bytes on stdout, stderr {:?}", self.out.len(), err.chars().take(200).collect::<String>())
	}
}

fn command(dir: &Path, args: &[OsString], epoch: Option<&OsStr>) -> Command {
	let mut c = Command::new(program());
	c.args(args).current_dir(dir).env_clear().stdin(Stdio::null());
	if let Some(e) = epoch {
		c.env("SOURCE_DATE_EPOCH", e);
	}
	c
}

/// Waits until nobody can read from a pipe. That takes a moment after its end is closed here, because processes
/// that other threads start have it open until they become another program.
fn wait_until_unread(w: &OwnedFd) {
	#[repr(C)]
	struct PollFd {
		fd: i32,
		events: i16,
		revents: i16
	}
	extern "C" {
		fn poll(fds: *mut PollFd, n: u64, timeout: i32) -> i32;
	}
	const POLLERR: i16 = 8;
	loop {
		let mut p = PollFd { fd: w.as_raw_fd(), events: 0, revents: 0 };
		if unsafe { poll(&mut p, 1, 0) } == 1 && p.revents & POLLERR != 0 {
			return;
		}
		std::thread::yield_now();
	}
}

fn run(mut c: Command) -> Ran {
	let o = c.output().expect("running the program");
	Ran { code: o.status.code(), out: o.stdout, err: o.stderr }
}

fn show(args: &[OsString]) -> String {
	args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" ")
}

fn os(s: &str) -> OsString {
	s.into()
}

/// The settings that apply when no option is given, as the documentation of both the library and the program has it.
fn default_cfg() -> Cfg {
	Cfg::DOCUMENTED
}

/// An option with a value, in one of its spellings.
fn spelled(t: &mut Tape, name: &str, value: &str) -> Vec<OsString> {
	if t.chance(1, 2) {
		vec![os(&format!("--{name}={value}"))]
	} else {
		vec![os(&format!("--{name}")), os(value)]
	}
}

struct Line {
	options: Vec<OsString>,
	cfg: Cfg,
	quiet: bool,
	remuxer: bool
}

/// Options, what they mean, and how they are spelled.
fn gen_options(t: &mut Tape, need_remuxer: bool, randomize: Option<bool>, without: &str) -> Line {
	let mut cfg = default_cfg();
	let mut groups: Vec<Vec<OsString>> = vec![];
	let quiet = t.chance(1, 2);
	let verbose = if t.chance(1, 4) { t.range(1, 3) } else { 0 };
	let remuxer = need_remuxer || t.chance(1, 4);
	let mut short = String::new();
	let mut flag = |t: &mut Tape, s: char, long: &str, groups: &mut Vec<Vec<OsString>>| match t.below(3) {
		0 => groups.push(vec![os(&format!("-{s}"))]),
		1 => groups.push(vec![os(&format!("--{long}"))]),
		_ => short.push(s)
	};
	if quiet {
		flag(t, 'q', "quiet", &mut groups);
	}
	for _ in 0..verbose {
		flag(t, 'v', "verbose", &mut groups);
	}
	if remuxer {
		match t.below(4) {
			0 => groups.push(vec![os("-r"), os("ogg2ogg")]),
			1 => groups.push(vec![os("-rogg2ogg")]),
			_ => {
				let s = spelled(t, "remuxer", "ogg2ogg");
				groups.push(s)
			}
		}
	}
	if !short.is_empty() {
		groups.push(vec![os(&format!("-{short}"))]);
	}
	if without != "vendor_string_action" && t.chance(1, 2) {
		cfg.vendor = t.below(5) as usize;
		let s = spelled(t, "vendor_string_action", sut::VENDOR_NAMES[cfg.vendor]);
		groups.push(s);
	}
	if without != "comment_fields_action" && t.chance(1, 3) {
		cfg.delete_comments = t.chance(1, 2);
		let s = spelled(t, "comment_fields_action", if cfg.delete_comments { "delete" } else { "copy" });
		groups.push(s);
	}
	let mut set = |t: &mut Tape, k: &str, v: String| {
		if k == without {
			return;
		}
		let s = spelled(t, "remuxer_option", &format!("{k}={v}"));
		groups.push(s);
	};
	match randomize {
		Some(r) => {
			cfg.randomize = r;
			set(t, "randomize_stream_serials", r.to_string());
		}
		None if t.chance(1, 2) => {
			cfg.randomize = t.chance(1, 3);
			set(t, "randomize_stream_serials", cfg.randomize.to_string());
		}
		None => ()
	}
	if t.chance(1, 2) {
		cfg.serial = t.edge(0, u32::MAX as u64) as u32;
		set(t, "first_stream_serial_offset", cfg.serial.to_string());
	}
	if t.chance(1, 3) {
		cfg.ignore_start = t.chance(2, 3);
		set(t, "ignore_start_sample_offset", cfg.ignore_start.to_string());
	}
	if t.chance(1, 3) {
		cfg.err_none = t.chance(1, 3);
		set(t, "error_on_no_vorbis_streams", cfg.err_none.to_string());
	}
	if t.chance(1, 3) {
		cfg.verify = t.chance(1, 3);
		set(t, "verify_ogg_page_checksums", cfg.verify.to_string());
	}
	let mut r = Rng::new(t.seed());
	for i in (1..groups.len()).rev() {
		groups.swap(i, r.below(i as u64 + 1) as usize);
	}
	Line { options: groups.concat(), cfg, quiet, remuxer }
}

fn gen_stem(t: &mut Tape) -> OsString {
	let mut s = t.pick(&["out", "a b", "sürprise", "x.y", "-", "--help", "*", "'q'"]).to_string();
	if s == "-" {
		s = "-n".into();
	}
	os(&s)
}

fn cli_input(t: &mut Tape) -> Vec<u8> {
	if t.chance(1, 8) {
		// Only foreign streams
		let n = t.range(1, 2);
		let serials = gen::gen_serials(t, n as usize);
		let mut d = vec![];
		for s in serials {
			d.extend(ogg::encode_pages(&gen::gen_foreign(t, s)));
		}
		return d;
	}
	if t.chance(1, 12) {
		let mut d = any_input(t);
		let n = t.below(d.len() as u64 + 1) as usize;
		d.truncate(n);
		return d;
	}
	if t.chance(1, 8) {
		let mut d = t.pick(&CORPUS).1.to_vec();
		let at = t.below(d.len() as u64) as usize;
		d[at] ^= 1 << t.below(8);
		return d;
	}
	any_input(t)
}

/// Options and files against the library.
fn c23_valid(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let dir = Scratch::new();
	let input = cli_input(t);
	let to_stdout = t.chance(1, 3);
	let ext = if to_stdout { 0 } else { t.weighted(&[4, 2, 2, 1, 1]) };
	let mut out_name = gen_stem(t);
	match ext {
		0 => out_name.push(".ogg"),
		1 => out_name.push(".oga"),
		2 => out_name.push(".ogx"),
		3 => out_name.push(".bin"),
		_ => ()
	}
	// "x.y" without a further extension, "-n" and the like need an explicit remuxer
	let guessable = ext <= 2 && !to_stdout;
	let epoch = match t.weighted(&[8, 7, 1]) {
		0 => None,
		1 => Some(os(&t.edge(0, i64::MAX as u64).to_string())),
		_ => Some(os(t.pick(&["", "x", "1.5", "99999999999999999999999"])))
	};
	let line = gen_options(t, !guessable, None, "");
	let mut in_name = gen_stem(t);
	in_name.push(t.pick(&[".ogg", "-in", ""]));
	if in_name == out_name {
		in_name.push("2");
	}
	dir.write(&in_name, &input);
	let existing = !to_stdout && t.chance(1, 3);
	if existing {
		let n = t.size(0, 60_000);
		dir.write(&out_name, &vec![0xAA; n]);
	}
	let mut args = line.options.clone();
	let dashed = |n: &OsStr| n.as_bytes().starts_with(b"-");
	let absolute = t.chance(1, 4);
	let path = |n: &OsStr| if absolute { dir.0.join(n).into_os_string() } else { n.to_os_string() };
	if dashed(&path(&in_name)) || t.chance(1, 6) {
		args.push(os("--"));
	}
	args.push(path(&in_name));
	args.push(if to_stdout { os("-") } else { path(&out_name) });

	let cfg = &line.cfg;
	let want = match (&epoch, cfg.randomize) {
		(_, false) | (None, true) => sut::remux(cfg, &input),
		(Some(e), true) => remux_in_process(cfg, &[&input], Env::Set(e.clone())).remove(0)
	};
	let want = match want {
		Outcome::Panic(_) => {
			cx.label("the library panics");
			return Ok(());
		}
		Outcome::Ok(o) => Ok(o),
		Outcome::Err(e) => Err(e)
	};
	let got = run(command(&dir.0, &args, epoch.as_deref()));
	cx.hash = hash_bytes(&input) ^ hash_bytes(show(&args).as_bytes());
	cx.nontrivial = !line.options.is_empty();
	cx.label(match (&want, to_stdout) {
		(Ok(_), false) => "to a file",
		(Ok(_), true) => "to standard output",
		(Err(_), _) => "library error"
	});
	cx.label_if(epoch.is_some() && cfg.randomize, "randomized with SOURCE_DATE_EPOCH");
	cx.label_if(existing, "output file exists");
	cx.label_if(!line.remuxer, "guessed remuxer");
	cx.sample = Some(format!("optivorbis {} ({} bytes in): {}", show(&args), input.len(), got.brief()));
	let bad = |kind: &str, m: String| {
		Err(Failure::new(kind, format!("optivorbis {} (SOURCE_DATE_EPOCH {epoch:?}): {m}: {}", show(&args), got.brief()))
			.with("input.ogg", &input)
			.with("stdout", &got.out)
			.with("arguments", show(&args).as_bytes()))
	};
	match want {
		Ok(want) => {
			if got.code != Some(0) {
				return bad("status", "the library succeeds".into());
			}
			let data = if to_stdout { got.out.clone() } else { dir.read(&out_name).unwrap_or_default() };
			let same = if cfg.randomize && epoch.is_none() {
				match (without_serials(&data), without_serials(&want)) {
					(Ok(a), Ok(b)) => a.0 == b.0,
					_ => data == want
				}
			} else {
				data == want
			};
			if !same {
				return bad("bytes", format!("the output differs from the library's: {}", first_difference(&data, &want)));
			}
			if !to_stdout && !line.quiet && !contains(&got.out, OPTIVORBIS_VERSION_TAG) {
				return bad("header", "no program header".into());
			}
			if line.quiet && (!to_stdout && !got.out.is_empty() || !got.err.is_empty()) {
				return bad("quiet", "messages in quiet mode".into());
			}
		}
		Err(e) => {
			if got.code != Some(1) {
				return bad("status", format!("the library fails ({e})"));
			}
			if got.err.is_empty() {
				return bad("silent", format!("no message for {e}"));
			}
		}
	}
	if fs::read(dir.0.join(&in_name)).ok().as_ref() != Some(&input) {
		return bad("input-changed", "the input file was modified".into());
	}
	Ok(())
}

fn contains(d: &[u8], s: &str) -> bool {
	d.windows(s.len()).any(|w| w == s.as_bytes())
}

/// Command lines that are wrong in one way.
fn c23_invalid(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let dir = Scratch::new();
	let input = CORPUS[5].1;
	dir.write(OsStr::new("in.ogg"), input);
	let to_stdout = t.chance(1, 2);
	let mut files = vec![os("in.ogg"), if to_stdout { os("-") } else { os("out.ogg") }];
	let front = t.chance(1, 2);
	// Options with `extra` before or after them, and without a valid setting of the same thing
	let with = |t: &mut Tape, without: &str, extra: Vec<OsString>| {
		let o = gen_options(t, to_stdout, None, without).options;
		if front {
			[extra, o].concat()
		} else {
			[o, extra].concat()
		}
	};
	let kind = t.below(14);
	let (what, options) = match kind {
		0 => {
			let x = os(t.pick(&["--no-such-option", "-x", "--quietly", "--remuxer-option=a=b", "-qz", "--vendor", "-R", "--Quiet"]));
			("unknown option", with(t, "", vec![x]))
		}
		1 => {
			let x = os(t.pick(&["--quiet=1", "--version=2", "--help=x", "--verbose=3"]));
			("flag with a value", with(t, "", vec![x]))
		}
		2 => {
			let v = *t.pick(&["", "Copy", "appendtag", "append", "COPY", "none", "delete", "copy "]);
			let x = spelled(t, "vendor_string_action", v);
			("invalid vendor string action", with(t, "vendor_string_action", x))
		}
		3 => {
			let v = *t.pick(&["", "Copy", "Delete", "empty", "none", "deleted"]);
			let x = spelled(t, "comment_fields_action", v);
			("invalid comment fields action", with(t, "comment_fields_action", x))
		}
		4 => {
			let k = *t.pick(&["randomize_stream_serials", "ignore_start_sample_offset", "error_on_no_vorbis_streams", "verify_ogg_page_checksums"]);
			let v = *t.pick(&["", "1", "0", "yes", "True", "FALSE", " true", "false ", "t", "true,false"]);
			let x = spelled(t, "remuxer_option", &format!("{k}={v}"));
			("invalid boolean", with(t, k, x))
		}
		5 => {
			let k = "first_stream_serial_offset";
			let v = *t.pick(&["", "-1", "4294967296", "1.0", "0x10", " 1", "1 ", "one", "99999999999999999999999999", "1e3"]);
			let x = spelled(t, "remuxer_option", &format!("{k}={v}"));
			("invalid integer", with(t, k, x))
		}
		6 => {
			let x = match t.below(3) {
				0 => vec![os("-r"), os(t.pick(&["ogg", "", "OGG2OGG", "ogg2webm", "ogg2ogg "]))],
				1 => vec![os(&format!("--remuxer={}", t.pick(&["ogg", "", "Ogg2ogg", "x"])))],
				_ => vec![os("-r=ogg2ogg")]
			};
			("unknown remuxer", [vec![os("-q")], x].concat())
		}
		7 => {
			files[1] = os(t.pick(&["-", "out", "out.mp3", "out.", "ogg", "out.ogg.bak"]));
			("remuxer can't be guessed", vec![os("-q")])
		}
		8 => {
			match t.below(3) {
				0 => files.truncate(1),
				1 => files.clear(),
				_ => files.push(os(t.pick(&["third", "-q", "--quiet", "-", "--help"])))
			}
			if t.chance(1, 3) {
				files.insert(0, os("--"));
			}
			("wrong number of files", with(t, "", vec![]))
		}
		9 => {
			let o = with(t, "", vec![]);
			files = vec![os(t.pick(&["--remuxer", "-r", "--vendor_string_action", "--comment_fields_action", "--remuxer_option", "-vr"]))];
			("missing value", o)
		}
		10 => {
			let mut two = match t.below(3) {
				0 => vec![os("-r"), os("ogg2ogg"), os("--remuxer=ogg2ogg")],
				1 => vec![os("--vendor_string_action=copy"), os("--vendor_string_action=copy")],
				_ => vec![os("--comment_fields_action=copy"), os("--comment_fields_action"), os("copy")]
			};
			if two[0] != "-r" {
				two.push(os("-rogg2ogg"));
			}
			("option given twice", two)
		}
		11 => {
			files[0] = os(t.pick(&["no-such-file.ogg", "no/such/directory.ogg", "", "in.ogg/x"]));
			("missing input file", with(t, "", vec![]))
		}
		12 => {
			files[1] = os(t.pick(&["no/such/directory.ogg", "in.ogg/x.ogg", "", "."]));
			("output file can't be created", with(t, "", vec![os("-v")]))
		}
		_ => {
			let bad = OsString::from_vec(vec![b'a' + t.below(20) as u8, 0xff, 0xfe]);
			let o = if t.chance(1, 2) {
				files[0] = bad;
				with(t, "", vec![])
			} else {
				vec![os("-r"), bad]
			};
			("argument that is no Unicode", o)
		}
	};
	let mut args = options;
	args.extend(files);
	let epoch = t.chance(1, 3).then(|| os("5"));
	let got = run(command(&dir.0, &args, epoch.as_deref()));
	cx.label(what);
	cx.hash = hash_bytes(show(&args).as_bytes());
	cx.nontrivial = true;
	cx.sample = Some(format!("{what}: optivorbis {}: {}", show(&args), got.brief()));
	let bad = |kind: &str, m: &str| {
		Err(Failure::new(kind, format!("{what}: optivorbis {}: {m}: {}", show(&args), got.brief())).with("arguments", show(&args).as_bytes()))
	};
	if got.code != Some(1) {
		return bad("invalid-accepted", "not rejected with status 1");
	}
	if got.err.is_empty() {
		return bad("invalid-silent", "no message");
	}
	if contains(&got.out, "OggS") {
		return bad("invalid-output", "data was written");
	}
	Ok(())
}

/// Help and version, which win over everything else.
fn c23_help(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let dir = Scratch::new();
	let mut line = gen_options(t, false, None, "");
	let help = t.chance(1, 2);
	let flag = if help { *t.pick(&["-h", "--help"]) } else { "--version" };
	let front = t.chance(1, 2);
	let at = if front { 0 } else { line.options.len() };
	line.options.insert(at, os(flag));
	for _ in 0..t.below(4) {
		line.options.push(os("file.ogg"));
	}
	let got = run(command(&dir.0, &line.options, None));
	cx.hash = hash_bytes(show(&line.options).as_bytes());
	cx.nontrivial = true;
	cx.label(flag);
	let mut want = vec![OPTIVORBIS_VERSION_TAG, "Copyright"];
	if help {
		want.extend([
			"Usage",
			"--help",
			"--version",
			"--quiet",
			"--verbose",
			"--remuxer",
			"--vendor_string_action",
			"--comment_fields_action",
			"--remuxer_option",
			"randomize_stream_serials",
			"first_stream_serial_offset",
			"ignore_start_sample_offset",
			"error_on_no_vorbis_streams",
			"verify_ogg_page_checksums"
		]);
	}
	let missing: Vec<&str> = want.into_iter().filter(|w| !contains(&got.out, w)).collect();
	if got.code != Some(0) || !missing.is_empty() {
		return fail("help", format!("optivorbis {}: {}, without {missing:?}", show(&line.options), got.brief()));
	}
	Ok(())
}

// ---- Faults

fn shim() -> OsString {
	std::env::var_os("OVVERIF_SHIM").unwrap_or_else(|| format!("{}/.target/faults.so", crate::verif_dir()).into())
}

/// A file that the library processes, how, and the result.
struct Job {
	dir: Scratch,
	input: Vec<u8>,
	want: Vec<u8>,
	options: Vec<OsString>
}

impl Job {
	fn new(t: &mut Tape, input: Vec<u8>, need_remuxer: bool) -> Option<Job> {
		let line = gen_options(t, need_remuxer, Some(false), "");
		let want = match sut::remux(&line.cfg, &input) {
			Outcome::Ok(o) => o,
			_ => return None
		};
		let dir = Scratch::new();
		dir.write(OsStr::new("in.ogg"), &input);
		Some(Job { dir, input, want, options: line.options })
	}
	fn args(&self, input: &str, output: &str) -> Vec<OsString> {
		let mut a = self.options.clone();
		a.extend([os(input), os(output)]);
		a
	}
	fn judge(&self, args: &[OsString], what: &str, got: &Ran, data: Option<&[u8]>, complete_possible: bool) -> CaseResult {
		let bad = |kind: &str, m: &str| {
			Err(Failure::new(kind, format!("{what}: optivorbis {}: {m}: {}", show(args), got.brief()))
				.with("input.ogg", &self.input)
				.with("arguments", show(args).as_bytes()))
		};
		match got.code {
			Some(0) if !complete_possible => bad("success-reported", "success is reported for an incomplete output"),
			Some(0) if data.is_some_and(|d| d != self.want) => bad("success-reported", "success is reported, but the output is not complete"),
			Some(0) => Ok(()),
			_ if got.err.is_empty() => bad("silent", "no error message"),
			_ => Ok(())
		}
	}
}

fn job_input(t: &mut Tape) -> Vec<u8> {
	match t.weighted(&[4, 2, 1, 1]) {
		0 => {
			let c = gen::gen_comments(t, &Profile::small());
			let s = gen::tiny_stream(t, c.encode(), 7);
			s.encode()
		}
		1 => t.pick(&CORPUS[..VALID]).1.to_vec(),
		2 => {
			// A large comment header
			let mut c = gen::gen_comments(t, &Profile::small());
			let n = t.size(5_000, 200_000);
			c.comments.push(t.bytes(n));
			gen::tiny_stream(t, c.encode(), 7).encode()
		}
		_ => {
			let n = t.size(1, 4);
			ogg::encode_pages(&gen::gen_file(t, &Profile::small(), n, 0).pages)
		}
	}
}

/// A limit of the size of the output file.
fn limited(job: &Job, limit: u64) -> CaseResult {
	let out = job.dir.0.join("out.ogg");
	let _ = fs::remove_file(&out);
	let args = job.args("in.ogg", "out.ogg");
	let mut c = command(&job.dir.0, &args, None);
	unsafe {
		c.pre_exec(move || {
			signal(SIGXFSZ, SIG_IGN);
			if setrlimit(RLIMIT_FSIZE, &[limit, limit]) != 0 {
				return Err(std::io::Error::last_os_error());
			}
			Ok(())
		});
	}
	let got = run(c);
	let n = job.want.len() as u64;
	let data = fs::read(&out).unwrap_or_default();
	job.judge(&args, &format!("file size limit {limit} for an output of {n} bytes"), &got, Some(&data), limit >= n)?;
	if limit >= n && got.code != Some(0) {
		return fail("limit-not-reached", format!("file size limit {limit} for an output of {n} bytes: {}", got.brief()));
	}
	Ok(())
}

fn c24_every_size(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let c = gen::gen_comments(t, &Profile::small());
	let mut b = c.encode();
	b.truncate(200);
	let input = gen::tiny_stream(t, b, 7).encode();
	let Some(job) = Job::new(t, input, false) else { return Ok(()) };
	let n = job.want.len() as u64;
	cx.hash = hash_bytes(&job.input);
	cx.nontrivial = true;
	cx.sample = Some(format!("every file size limit from 0 to {}", n + 1));
	for limit in 0..=n + 1 {
		limited(&job, limit).map_err(|f| f.with("input.ogg", &job.input))?;
		cx.evals += 1;
		cx.extra.push(cx.hash ^ limit);
	}
	Ok(())
}

fn c24_sizes(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let input = job_input(t);
	let Some(job) = Job::new(t, input, false) else { return Ok(()) };
	let n = job.want.len() as u64;
	cx.hash = hash_bytes(&job.input);
	cx.nontrivial = n > 0;
	cx.label_if(n > 8192, "output larger than a write buffer");
	for k in 0..8 {
		let limit = match t.weighted(&[3, 3, 2, 1]) {
			0 => n.saturating_sub(t.range(1, 10)),
			1 => t.range(0, n),
			2 => (t.range(0, n / 8192 + 1) * 8192 + t.below(3)).saturating_sub(1),
			_ => n + t.below(2)
		};
		limited(&job, limit).map_err(|f| f.with("input.ogg", &job.input))?;
		cx.extra.push(cx.hash ^ limit << 8 ^ k);
		cx.evals += 1;
		cx.label(if limit < n { "limit below the output's size" } else { "limit not reached" });
	}
	cx.sample = Some(format!("8 file size limits for an output of {n} bytes"));
	Ok(())
}

/// Devices and pipes that accept nothing, or stop accepting.
fn c24_sinks(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let kind = t.below(4);
	let input = if kind == 3 && t.chance(3, 4) {
		// More than a pipe can hold
		let mut c = gen::gen_comments(t, &Profile::small());
		let n = t.size(100_000, 400_000);
		c.comments.push(t.bytes(n));
		gen::tiny_stream(t, c.encode(), 7).encode()
	} else {
		job_input(t)
	};
	let Some(job) = Job::new(t, input, true) else { return Ok(()) };
	let n = job.want.len();
	cx.hash = hash_bytes(&job.input);
	cx.nontrivial = n > 0;
	cx.label(["/dev/full as output file", "/dev/full as standard output", "closed pipe", "pipe closed midway"][kind as usize]);
	cx.sample = Some(format!("sink {kind}, output of {n} bytes"));
	match kind {
		0 => {
			let args = job.args("in.ogg", "/dev/full");
			let got = run(command(&job.dir.0, &args, None));
			job.judge(&args, "output to /dev/full", &got, None, n == 0)
		}
		1 => {
			let args = job.args("in.ogg", "-");
			let mut c = command(&job.dir.0, &args, None);
			c.stdout(fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full"));
			c.stderr(Stdio::piped());
			let o = c.spawn().and_then(|x| x.wait_with_output()).expect("running the program");
			let got = Ran { code: o.status.code(), out: vec![], err: o.stderr };
			job.judge(&args, "standard output is /dev/full", &got, None, n == 0)
		}
		_ => {
			let args = job.args("in.ogg", "-");
			let mut fds = [0i32; 2];
			assert_eq!(unsafe { pipe2(&mut fds, O_CLOEXEC) }, 0);
			let (r, w) = unsafe { (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1])) };
			let mut c = command(&job.dir.0, &args, None);
			// A file, because nobody reads messages while the output is read
			c.stderr(fs::File::create(job.dir.0.join("stderr")).unwrap());
			let ended = |mut child: std::process::Child| {
				let code = child.wait().expect("end of the program").code();
				Ran { code, out: vec![], err: fs::read(job.dir.0.join("stderr")).unwrap() }
			};
			if kind == 2 {
				drop(r);
				wait_until_unread(&w);
				c.stdout(w);
				let child = c.spawn().expect("running the program");
				drop(c);
				return job.judge(&args, "standard output is a pipe nobody reads", &ended(child), None, n == 0);
			}
			let cap = match unsafe { fcntl(w.as_raw_fd(), F_SETPIPE_SZ, 4096) } {
				c if c > 0 => c as usize,
				_ => 65536
			};
			let k = t.size(0, n);
			c.stdout(w);
			let child = c.spawn().expect("running the program");
			drop(c);
			let mut pipe = fs::File::from(r);
			let mut read = vec![0u8; k];
			let mut got_bytes = 0;
			while got_bytes < k {
				match pipe.read(&mut read[got_bytes..]) {
					Ok(0) | Err(_) => break,
					Ok(x) => got_bytes += x
				}
			}
			let prefix = read[..got_bytes] == job.want[..got_bytes];
			// The program can't write more than fits in the pipe, even if others still have this end open
			drop(pipe);
			let got = ended(child);
			if !prefix || got_bytes < k {
				return fail("pipe-data", format!("optivorbis {}: the data on the standard output is wrong: {}", show(&args), got.brief()));
			}
			cx.label_if(k + cap < n, "pipe closed before everything can have been written");
			job.judge(&args, &format!("pipe closed after {k} of {n} bytes"), &got, None, k + cap >= n)
		}
	}
}

/// Inputs that can't be opened or read.
fn c24_sources(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let input = CORPUS[5].1.to_vec();
	let to_stdout = t.chance(1, 2);
	let Some(job) = Job::new(t, input, true) else { return Ok(()) };
	let fifo = job.dir.0.join("fifo");
	let (what, path): (&str, String) = match t.below(6) {
		0 => ("no such file", "nothing.ogg".into()),
		1 => {
			fs::create_dir(job.dir.0.join("d")).unwrap();
			("directory", "d".into())
		}
		2 => ("unreadable memory", "/proc/self/mem".into()),
		3 => {
			std::os::unix::fs::symlink("loop", job.dir.0.join("loop")).unwrap();
			("symbolic link to itself", "loop".into())
		}
		4 => ("empty", "/dev/null".into()),
		_ => {
			let mut p = fifo.clone().into_os_string().into_vec();
			p.push(0);
			assert_eq!(unsafe { mkfifo(p.as_ptr().cast(), 0o600) }, 0);
			("pipe that can't be rewound", "fifo".into())
		}
	};
	let args = job.args(&path, if to_stdout { "-" } else { "out.ogg" });
	cx.label(what);
	cx.hash = hash_bytes(show(&args).as_bytes());
	cx.nontrivial = true;
	let data = job.input.clone();
	let writer = (path == "fifo").then(|| {
		std::thread::spawn(move || {
			// Fails when the program gives up early
			let _ = fs::OpenOptions::new().read(true).write(true).open(&fifo).map(|mut f| {
				let _ = std::io::Write::write_all(&mut f, &data[..data.len().min(4096)]);
				std::thread::sleep(std::time::Duration::from_millis(150));
			});
		})
	});
	let got = run(command(&job.dir.0, &args, None));
	if let Some(w) = writer {
		w.join().unwrap();
	}
	cx.sample = Some(format!("{what}: {}", got.brief()));
	// A program that buffers what it can't seek in could succeed with a pipe; nothing here does
	if got.code == Some(0) && what != "pipe that can't be rewound" {
		return fail("source", format!("{what}: optivorbis {}: {}", show(&args), got.brief()));
	}
	job.judge(&args, what, &got, None, true)
}

/// Inputs that the library rejects, of which no complete output can exist, and those that it happens to accept.
fn c24_damaged(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let mut input = job_input(t);
	let n = input.len() as u64;
	let mut resum = false;
	let what = match t.below(6) {
		0 => {
			input.truncate(t.below(n) as usize);
			"cut anywhere"
		}
		1 => {
			let pages = ogg::parse_pages(&input).expect("generated pages");
			let k = t.below(pages.len() as u64) as usize;
			input = ogg::encode_pages(&pages[..k]);
			"cut after a page"
		}
		2 => {
			let pages = ogg::parse_pages(&input).expect("generated pages");
			let k = t.below(pages.len() as u64) as usize;
			let start = ogg::encode_pages(&pages[..k]).len() as u64;
			input.truncate((start + t.range(1, 60)).min(n - 1) as usize);
			"cut near the start of a page"
		}
		3 => {
			input.drain(..t.below(n) as usize);
			"the beginning is missing"
		}
		4 => {
			let mut pages = ogg::parse_pages(&input).expect("generated pages");
			let k = t.below(pages.len() as u64) as usize;
			pages.remove(k);
			input = ogg::encode_pages(&pages);
			"a page is missing"
		}
		_ => {
			resum = t.chance(1, 2);
			for _ in 0..t.range(1, 4) {
				let at = t.below(n) as usize;
				input[at] ^= 1 << t.below(8);
			}
			"flipped bits"
		}
	};
	if resum {
		if let Ok(p) = ogg::parse_pages(&input) {
			input = ogg::encode_pages(&p);
		}
	}
	let to_stdout = t.chance(1, 3);
	let line = gen_options(t, to_stdout, Some(false), "");
	let dir = Scratch::new();
	dir.write(OsStr::new("in.ogg"), &input);
	let existing = !to_stdout && t.chance(1, 4);
	if existing {
		dir.write(OsStr::new("out.ogg"), CORPUS[5].1);
	}
	let (ok, want) = match sut::remux(&line.cfg, &input) {
		Outcome::Ok(o) => (true, o),
		_ => (false, vec![])
	};
	let job = Job { dir, input, want, options: line.options };
	let args = job.args("in.ogg", if to_stdout { "-" } else { "out.ogg" });
	let got = run(command(&job.dir.0, &args, None));
	cx.hash = hash_bytes(&job.input) ^ hash_bytes(show(&args).as_bytes());
	cx.nontrivial = !ok;
	cx.label(what);
	cx.label_if(!ok, "rejected by the library");
	cx.sample = Some(format!("{what}, {} of {n} bytes: {}", job.input.len(), got.brief()));
	let data = if to_stdout { got.out.clone() } else { fs::read(job.dir.0.join("out.ogg")).unwrap_or_default() };
	job.judge(&args, what, &got, Some(&data), ok)
}

const ERRNOS: [i32; 6] = [5, 28, 122, 27, 12, 110];

/// A fault at the n-th operation on the input or output, for every n.
fn c24_faults(t: &mut Tape, cx: &mut Cx) -> CaseResult {
	let input = job_input(t);
	let to_stdout = t.chance(1, 3);
	let Some(job) = Job::new(t, input, to_stdout) else { return Ok(()) };
	let out = if to_stdout { "-" } else { "out.ogg" };
	let args = job.args("in.ogg", out);
	let log = job.dir.0.join("log");
	cx.hash = hash_bytes(&job.input) ^ to_stdout as u64;
	let op = *t.pick(&["write", "read", "seek"]);
	let mode = *t.pick(&["sticky", "once", "intr", "short"]);
	let (mode, harmless) = match (op, mode) {
		("seek", "intr" | "short") => ("once", false),
		(_, m) => (m, m == "intr" || m == "short")
	};
	let errno = t.pick(&ERRNOS).to_string();
	cx.label(&format!("{op} {mode}"));
	let file = if op == "write" { out } else { "in.ogg" };
	// A process has to be started for each operation; spread over long runs
	let limit = 40;
	let mut nth = 0u64;
	let mut hits = 0;
	for _ in 0..limit {
		let _ = fs::remove_file(job.dir.0.join("out.ogg"));
		let _ = fs::remove_file(&log);
		let mut c = command(&job.dir.0, &args, None);
		c.env("LD_PRELOAD", shim())
			.env("OVF_FILE", file)
			.env("OVF_OP", op)
			.env("OVF_NTH", nth.to_string())
			.env("OVF_MODE", mode)
			.env("OVF_ERRNO", &errno)
			.env("OVF_LOG", &log);
		let got = run(c);
		let hit = match fs::read(&log) {
			Ok(l) => l == b"hit",
			Err(_) => {
				// Without a log nothing is known about the fault
				cx.label("no log");
				false
			}
		};
		let data = if to_stdout { got.out.clone() } else { fs::read(job.dir.0.join("out.ogg")).unwrap_or_default() };
		let what = format!("{op} #{nth} {mode} (error {errno}){}", if hit { "" } else { ", not reached" });
		cx.evals += 1;
		job.judge(&args, &what, &got, Some(&data), !(hit && mode == "sticky"))?;
		if (!hit || harmless) && got.code != Some(0) {
			return Err(Failure::new("harmless", format!("{what}: optivorbis {}: {}", show(&args), got.brief())).with("input.ogg", &job.input));
		}
		if !hit {
			break;
		}
		hits += 1;
		cx.extra.push(cx.hash ^ hash_bytes(what.as_bytes()));
		cx.label(&format!("{op} {mode} hit"));
		nth += if nth < 12 { 1 } else { t.range(1, 1 + nth / 2) };
	}
	cx.nontrivial = hits > 0;
	cx.sample = Some(format!("{op} {mode}: {hits} operations hit, input {} bytes, output {} bytes to {out}", job.input.len(), job.want.len()));
	Ok(())
}

pub fn props() -> Vec<Prop> {
	vec![
		Prop {
			id: "C23",
			level: "exploration",
			rule: "command lines generated from settings (every spelling of every option, file or standard output, existing output files, SOURCE_DATE_EPOCH) over valid and damaged files, compared with the library in this process; and command lines that are wrong in one way; non-trivial: at least one option, or a wrong command line",
			assumptions: &[
				"input and output are different files",
				"unknown keys of remuxer_option and repeated keys are not judged"
			],
			campaigns: vec![
				campaign("valid", 6_000, 60_000, c23_valid),
				campaign("invalid", 3_000, 30_000, c23_invalid),
				campaign("help", 200, 2_000, c23_help)
			]
		},
		Prop {
			id: "C24",
			level: "fault_enumeration",
			rule: "every file size limit around small outputs, limits around buffer boundaries of larger ones, full devices, closed pipes, unreadable, truncated and damaged inputs, and injected errors, interruptions and short transfers at every read, write and seek (LD_PRELOAD); non-trivial: a fault point of a non-empty output, or an input the library rejects",
			assumptions: &["errors that only close() reports are not injected", "the standard output is open"],
			campaigns: vec![
				campaign("every-size", 10, 100, c24_every_size),
				campaign("sizes", 500, 5_000, c24_sizes),
				campaign("sinks", 1_500, 15_000, c24_sinks),
				campaign("sources", 300, 3_000, c24_sources),
				campaign("damaged", 2_000, 20_000, c24_damaged),
				campaign("faults", 700, 7_000, c24_faults)
			]
		}
	]
}
