use std::os::fd::{AsRawFd, FromRawFd};

use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};

use crate::{
	common::*,
	display::*,
	engine::*,
	exec::{self, Inv},
	gen,
	spec::{self, Severity},
	wire::{encode_block, encode_ingenico, hex, unhex, Hex},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
	pub option: String,
	pub data:   String,
	pub masks:  Vec<char>,
	pub sort:   bool,
	/// Whether colour's asked for as `ansi` rather than `always`.
	pub ansi:   bool,
	/// What the environment says about terminals.
	#[serde(default)]
	pub env:    Vec<(String, String)>,
}
impl Case {
	fn is_tlv(&self) -> bool {
		self.option.ends_with("tlv")
	}

	fn inv(&self, colour: Option<&str>) -> Inv {
		let mut inv = if self.is_tlv() {
			tlv(&self.option, &self.data, &self.masks, self.sort)
		} else {
			single(&self.option, &self.data)
		};
		if let Some(c) = colour {
			inv.args.insert(0, format!("--colour={c}"));
		}
		inv.env.clone_from(&self.env);
		inv
	}

	fn colour(&self) -> &'static str {
		if self.ansi {
			"ansi"
		} else {
			"always"
		}
	}
}

fn marked(lines: &[String], severities: &[Severity]) -> Vec<String> {
	lines
		.iter()
		.zip(severities)
		.map(|(l, s)| {
			let mark = match s {
				Severity::Normal => "",
				Severity::Warning => WARNING_MARK,
				Severity::Error => ERROR_MARK,
			};
			format!("{l}{mark}")
		})
		.collect()
}
/// Compares by the marks only, line by line of the same text.
fn same_marks(plain: &[String], severities: &[Severity], got: &[String]) -> Result<usize, String> {
	if plain.len() != severities.len() || plain.len() != got.len() {
		// Other properties judge what's shown
		return Ok(0);
	}
	let want = marked(plain, severities);
	let named = |l: &str| match l.split_once('\u{1}') {
		None => "no severity".to_owned(),
		Some((_, m)) => format!("as {m}"),
	};
	for (w, g) in want.iter().zip(got) {
		let (wm, gm) = (w.split_once('\u{1}').map(|x| x.1), g.split_once('\u{1}').map(|x| x.1));
		if wm != gm {
			return Err(format!("{} is coloured {} where {} is due", clip(g.split('\u{1}').next().unwrap_or(""), 120), named(g), named(w)));
		}
	}
	Ok(severities.iter().filter(|s| **s != Severity::Normal).count())
}
fn judge_tree(plain: &[Shown], got: &[Shown], severe: &mut usize) -> Result<(), String> {
	if plain.len() != got.len() {
		return Err("a severity is coloured outside a decoded value".to_owned());
	}
	for (p, g) in plain.iter().zip(got) {
		if p.tag != g.tag || p.name != g.name || p.masked != g.masked {
			return Err("a severity is coloured outside a decoded value".to_owned());
		}
		if let (Some(pl), Some(gl)) = (&p.parsed, &g.parsed) {
			let value = p.raw.clone().unwrap_or_default();
			// Without a known decoding, nothing in it is a condition
			let due = spec::severities(&p.tag, &value).unwrap_or_else(|| vec![Severity::Normal; pl.len()]);
			*severe += same_marks(pl, &due, gl).map_err(|e| format!("{} = {}: {e}", hex(&p.tag), hex(&value)))?;
		}
		judge_tree(&p.kids, &g.kids, severe)?;
	}
	Ok(())
}
fn without_header(text: &str) -> &str {
	text.split_once("\n\n").filter(|(h, _)| h.starts_with("TLV Format")).map_or(text, |(_, t)| t)
}

fn run_both(inv: &Inv) -> Result<(String, String), Failure> {
	let out = exec::run(inv).map_err(Failure::Infra)?;
	classify(&out).map_err(|e| Failure::from(format!("{e}: {}", show(inv))))?;
	Ok((text(&out.stdout), text(&out.stderr)))
}
fn check(case: &Case) -> Checked {
	if case.data.is_empty() || !fits(&case.data) {
		return seen(false, "empty or too long");
	}
	let never = case.inv(Some("never"));
	let (plain_out, plain_err) = run_both(&never)?;
	if plain_out.contains('\u{1b}') || plain_err.contains('\u{1b}') {
		return Err(format!("colour codes are written without colour: {}", show(&never)).into());
	}
	let auto = case.inv(if case.data.len() % 2 == 0 { None } else { Some("auto") });
	let (auto_out, auto_err) = run_both(&auto)?;
	if auto_out != plain_out || auto_err != plain_err {
		return Err(format!("automatic colour, not on a terminal, isn't as without: {}", show(&auto)).into());
	}
	let inv = case.inv(Some(case.colour()));
	let (out, err) = run_both(&inv)?;
	judge_coloured(case, &inv, &plain_out, &plain_err, &out, &err)
}
fn judge_coloured(case: &Case, inv: &Inv, plain_out: &str, plain_err: &str, out: &str, err: &str) -> Checked {
	for (p, c) in [(plain_out, out), (plain_err, err)] {
		let stripped = plain(c);
		if stripped != p {
			let at = stripped.lines().zip(p.lines()).take_while(|(a, b)| a == b).count();
			let line = |s: &str| clip(s.lines().nth(at).unwrap_or(""), 120);
			return Err(format!(
				"line {} with colour is {} where it's {} without: {}",
				at + 1,
				line(&stripped),
				line(p),
				show(inv)
			)
			.into());
		}
		if read_colours(c).carried {
			return Err(format!("emphasis goes on after the end of its line: {}", show(inv)).into());
		}
		if read_colours(c).left_on {
			return Err(format!("something's left switched on at the end: {}", show(inv)).into());
		}
	}
	let marked = read_colours(out).marked;
	if plain_out.is_empty() {
		return seen(!plain_err.is_empty(), if plain_err.is_empty() { "nothing" } else { "diagnostic" });
	}
	if case.is_tlv() {
		let p = at(inv, parse_tlv(without_header(plain_out)))?;
		let got = parse_tlv(without_header(&marked)).map_err(|e| {
			Failure::from(format!("a severity is coloured outside a decoded value ({e}): {}", show(inv)))
		})?;
		let mut severe = 0;
		at(inv, judge_tree(&p, &got, &mut severe))?;
		return seen_n(true, if severe > 0 { "TLV with severities" } else { "TLV without severities" }, count(&p));
	}
	let digits: String = case.data.chars().filter(char::is_ascii_hexdigit).collect();
	let value = unhex(&digits[..digits.len() / 2 * 2]);
	let plain_lines = lines(plain_out);
	let due = match &case.option[..] {
		"tvr" => spec::severities(&[0x95], &value),
		"tsi" => spec::severities(&[0x9B], &value),
		"ccd-iad" => spec::severities(&[0x9F, 0x10], &value),
		"ccd-cvr" => spec::cvr_severities(&value),
		"cvm-results" => spec::severities(&[0x9F, 0x34], &value),
		_ => Some(vec![Severity::Normal; plain_lines.len()]),
	};
	let Some(due) = due else {
		return seen(false, "not determined");
	};
	let severe = at(inv, same_marks(&plain_lines, &due, &lines(&marked)))?;
	seen(true, if severe > 0 { "value with severities" } else { "value without severities" })
}

// On a terminal

#[derive(Clone, Debug, Serialize, Deserialize)]
struct OnTerminal {
	case:   Case,
	/// `auto` or something else.
	colour: String,
}
fn on_terminal(inv: &Inv) -> Result<(String, String), String> {
	on_terminals(inv, false, true, false)
}
/// Runs with standard input, output and error on a terminal or not. What's
/// written to the terminal is in the output, even if it's standard error.
pub fn on_terminals(inv: &Inv, stdin: bool, stdout: bool, stderr: bool) -> Result<(String, String), String> {
	on_sized_terminals(inv, stdin, stdout, stderr, None)
}
/// As [`on_terminals`], with a number of rows and columns.
pub fn on_sized_terminals(
	inv: &Inv,
	stdin: bool,
	stdout: bool,
	stderr: bool,
	size: Option<(u16, u16)>,
) -> Result<(String, String), String> {
	let (mut master, mut slave) = (0, 0);
	let mut settings: libc::termios = unsafe { std::mem::zeroed() };
	unsafe {
		let rc = libc::openpty(&mut master, &mut slave, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut());
		if rc != 0 {
			return Err(format!("openpty: {}", std::io::Error::last_os_error()));
		}
		libc::fcntl(master, libc::F_SETFD, libc::FD_CLOEXEC);
		libc::fcntl(slave, libc::F_SETFD, libc::FD_CLOEXEC);
		libc::tcgetattr(slave, &mut settings);
		libc::cfmakeraw(&mut settings);
		libc::tcsetattr(slave, libc::TCSANOW, &settings);
		if let Some((rows, columns)) = size {
			let size = libc::winsize {
				ws_row: rows,
				ws_col: columns,
				ws_xpixel: 0,
				ws_ypixel: 0,
			};
			libc::ioctl(slave, libc::TIOCSWINSZ, &size);
		}
	}
	let master = unsafe { std::fs::File::from_raw_fd(master) };
	let slave = unsafe { std::fs::File::from_raw_fd(slave) };
	let end = |f: &std::fs::File| f.try_clone().map(std::process::Stdio::from).map_err(|e| e.to_string());
	let mut child = exec::command(inv)
		.stdin(if stdin { end(&slave)? } else { std::process::Stdio::null() })
		.stdout(if stdout { end(&slave)? } else { std::process::Stdio::piped() })
		.stderr(if stderr { end(&slave)? } else { std::process::Stdio::piped() })
		.spawn()
		.map_err(|e| format!("spawn: {e}"))?;
	drop(slave);
	exec::RUNS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
	let pipe = |p: Option<std::process::ChildStdout>| {
		std::thread::spawn(move || {
			let mut all = Vec::new();
			if let Some(mut p) = p {
				let _ = std::io::Read::read_to_end(&mut p, &mut all);
			}
			all
		})
	};
	let reader = pipe(child.stdout.take());
	let fd = master.as_raw_fd();
	let mut out = Vec::new();
	let mut buf = [0u8; 4096];
	let start = std::time::Instant::now();
	loop {
		let mut poll = libc::pollfd {
			fd,
			events: libc::POLLIN,
			revents: 0,
		};
		let ready = unsafe { libc::poll(&mut poll, 1, 2000) };
		if ready > 0 {
			let n = unsafe { libc::read(fd, buf.as_mut_ptr().cast(), buf.len()) };
			if n <= 0 {
				break;
			}
			out.extend(&buf[..n as usize]);
		} else if start.elapsed().as_secs() > 60 {
			let _ = child.kill();
			let _ = child.wait();
			return Err("a run on a terminal didn't end".to_owned());
		}
	}
	let done = child.wait_with_output().map_err(|e| e.to_string())?;
	out.extend(reader.join().map_err(|_| "a reader panicked".to_owned())?);
	Ok((text(&out), text(&done.stderr)))
}
fn check_terminal(case: &OnTerminal) -> Checked {
	if case.case.data.is_empty() || !fits(&case.case.data) {
		return seen(false, "empty or too long");
	}
	let (plain_out, plain_err) = run_both(&case.case.inv(Some("never")))?;
	let inv = case.case.inv(Some(&case.colour));
	let (out, err) = on_terminal(&inv).map_err(Failure::Infra)?;
	// Whether the diagnostic is coloured isn't the program's output's matter
	let err = plain(&err);
	let on = out.contains('\u{1b}');
	if on && case.colour == "never" {
		return Err(format!("colour codes are written without colour: {}", show(&inv)).into());
	}
	let env = |k: &str| case.case.env.iter().find(|(n, _)| n == k).map(|(_, v)| &v[..]);
	let due = match &case.colour[..] {
		"auto" => match (env("TERM"), env("NO_COLOR")) {
			(Some("dumb"), _) => Some(false),
			(_, Some(v)) if !v.is_empty() => Some(false),
			(Some(_), None) => Some(true),
			_ => None,
		},
		_ => Some(case.colour != "never"),
	};
	// (Not every output has something to emphasise)
	if due == Some(false) && on || due == Some(true) && !on && case.case.is_tlv() && !plain_out.is_empty() {
		return Err(format!(
			"colour is {} on a terminal with {:?}: {}",
			if on { "on" } else { "off" },
			case.case.env,
			show(&inv)
		)
		.into());
	}
	if !on {
		if out != plain_out || err != plain_err {
			return Err(format!("the output on a terminal without colour is another: {}", show(&inv)).into());
		}
		return seen(!plain_out.is_empty(), "without colour");
	}
	judge_coloured(&case.case, &inv, &plain_out, &plain_err, &out, &err)?;
	seen(true, "with colour")
}

/// Into something else than a file.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Elsewhere {
	case:   Case,
	colour: String,
	output: String,
	error:  String,
}
fn check_elsewhere(scratch: &std::path::Path, case: &Elsewhere) -> Checked {
	if case.case.data.is_empty() || !fits(&case.case.data) {
		return seen(false, "empty or too long");
	}
	let (plain_out, plain_err) = run_both(&case.case.inv(Some("never")))?;
	let inv = case.case.inv(Some(&case.colour));
	let done = exec::run_between(&inv, scratch, "null", &case.output, &case.error).map_err(Failure::Infra)?;
	let (out, err) = (text(&done.stdout), text(&done.stderr));
	let on = out.contains('\u{1b}') || err.contains('\u{1b}');
	let due = !matches!(&case.colour[..], "never" | "auto");
	if on && !due || due && !on && case.case.is_tlv() && !plain_out.is_empty() {
		return Err(format!(
			"colour is {} with the output in a {} and diagnostics in a {}: {}",
			if on { "on" } else { "off" },
			case.output,
			case.error,
			show(&inv)
		)
		.into());
	}
	if !on {
		if out != plain_out || err != plain_err {
			return Err(format!("the output in a {} without colour is another: {}", case.output, show(&inv)).into());
		}
		return seen(!plain_out.is_empty(), "elsewhere without colour");
	}
	judge_coloured(&case.case, &inv, &plain_out, &plain_err, &out, &err)?;
	seen(true, "elsewhere with colour")
}
fn elsewhere() -> BoxedStrategy<Elsewhere> {
	(
		case(),
		select(vec!["always", "ansi", "always", "ansi", "auto", "never"]),
		select(exec::OUTPUTS.to_vec()),
		select(exec::OUTPUTS.to_vec()),
	)
		.prop_map(|(case, colour, output, error)| Elsewhere {
			case,
			colour: colour.to_owned(),
			output: output.to_owned(),
			error: error.to_owned(),
		})
		.boxed()
}
/// Many objects in a row, side by side or one within another.
fn rows() -> Vec<Case> {
	let units: Vec<Vec<u8>> = [
		"9505FCF8FCF8F0",
		"9505C000000000",
		"9F3403410302",
		"9F34030203009F0D05FCF8FCF8F0",
		"9505FCF8FCF8F05A0112",
		"E1079505FCF8FCF8F0",
		"9F10200FA501A003A400000102030405060708 0F000102030405060708090A0B0C0D0E",
		"9B02E800",
		"5000",
		"9A03000000",
		"9F33036008C8",
		"8E0A00000001000000004103",
	]
	.iter()
	.map(|s| unhex(&s.replace(' ', "")))
	.collect();
	let mut cases = Vec::new();
	for unit in &units {
		for n in (1..=40).chain([48, 50, 60, 63, 64, 65, 80, 99, 100, 101, 120, 127, 128, 129, 150, 200, 250, 255, 256, 257, 300, 400, 500, 512, 700, 1_000, 1_024, 1_025, 1_500, 2_000]) {
			for option in ["ber-tlv", "auto-tlv"] {
				cases.push(Case {
					option: option.to_owned(),
					data: hex(&unit.repeat(n)),
					masks: vec!['*'],
					sort: n % 2 == 0,
					ansi: n % 3 == 0,
					env: vec![],
				});
			}
		}
		for depth in (1..=20).chain([30, 31, 32, 33, 50, 64, 100, 127, 128, 129, 200, 249]) {
			let mut all = unit.clone();
			for _ in 0..depth {
				let inner = std::mem::take(&mut all);
				all.push(0xE3);
				crate::wire::encode_length(inner.len(), 0, &mut all);
				all.extend(inner);
				if depth < 40 {
					all.extend(unit);
				}
			}
			cases.push(Case {
				option: "ber-tlv".to_owned(),
				data: hex(&all),
				masks: vec!['*'],
				sort: depth % 2 == 0,
				ansi: depth % 3 == 0,
				env: vec![],
			});
		}
	}
	cases.retain(|c| fits(&c.data));
	cases
}

const SINGLES: &[(&str, &[u8])] = &[
	("tvr", &[0x95]),
	("tsi", &[0x9B]),
	("ccd-iad", &[0x9F, 0x10]),
	("cvm-results", &[0x9F, 0x34]),
	("cvm-list", &[0x8E]),
	("ccd-cvr", &[]),
	("identify", &[0x9F, 0x02]),
	("service-code", &[]),
];
fn environment() -> BoxedStrategy<Vec<(String, String)>> {
	let term = prop_oneof![
		1 => Just(None),
		3 => select(vec!["xterm-256color", "xterm", "vt100", "screen", "linux", "dumb"]).prop_map(Some),
	];
	let others = select(vec![
		vec![],
		vec![],
		vec![("NO_COLOR", "1")],
		vec![("NO_COLOR", "")],
		vec![("CLICOLOR", "0")],
		vec![("CLICOLOR_FORCE", "1")],
		vec![("COLORTERM", "truecolor")],
		vec![("NO_COLOR", "1"), ("CLICOLOR_FORCE", "1")],
	]);
	(term, others)
		.prop_map(|(term, mut all)| {
			all.extend(term.map(|t| ("TERM", t)));
			all.into_iter().map(|(k, v)| (k.to_owned(), v.to_owned())).collect()
		})
		.boxed()
}
pub fn case() -> BoxedStrategy<Case> {
	let single = select(SINGLES.to_vec()).prop_flat_map(|(option, tag)| {
		let data = match option {
			"service-code" => "[0-9]{1,4}".boxed(),
			"identify" => prop_oneof![gen::named_tag(), gen::any_tag()].prop_map(|v| hex(&v)).boxed(),
			"ccd-cvr" => prop_oneof![5 => gen::bytes_of(5), 1 => gen::bytes(8)].prop_map(|v| hex(&v)).boxed(),
			_ => prop_oneof![9 => gen::valid_value(tag), 1 => gen::bytes(9)].prop_map(|v| hex(&v)).boxed(),
		};
		(Just(option.to_owned()), data)
	});
	let leafy = || {
		let item = prop_oneof![
			4 => gen::decoded_tag().prop_flat_map(|t| (Just(t.clone()), gen::valid_value(&t))),
			1 => gen::leaf(20).prop_map(|o| (o.tag.0.clone(), o.value())),
		];
		(gen::wraps(), vec(item, 1..8)).prop_map(|(wraps, values)| {
			Batch {
				wraps,
				values: values.into_iter().map(|(t, v)| (Hex(t), Hex(v))).collect(),
			}
			.bytes()
		})
	};
	let bytes = move || prop_oneof![2 => leafy(), 1 => gen::block(5, 3, 30).prop_map(|b| encode_block(&b))];
	let block = prop_oneof![
		3 => bytes().prop_map(|b| ("ber-tlv".to_owned(), hex(&b))),
		1 => bytes().prop_map(|b| ("auto-tlv".to_owned(), hex(&b))),
		1 => (any::<bool>(), gen::recs(5, 20)).prop_map(|(auto, r)| (
			if auto { "auto-tlv" } else { "ingenico-tlv" }.to_owned(),
			encode_ingenico(&r, false).replace('\0', "")
		)),
		1 => (any::<bool>(), gen::bytes(30)).prop_map(|(auto, b)| (
			if auto { "auto-tlv" } else { "ber-tlv" }.to_owned(),
			hex(&b)
		)),
	];
	(
		prop_oneof![2 => single.boxed(), 3 => block.boxed()],
		prop_oneof![2 => Just(vec![]), 1 => gen::masks(3)],
		any::<bool>(),
		any::<bool>(),
		environment(),
	)
		.prop_map(|((option, data), masks, sort, ansi, env)| Case {
			option,
			data,
			masks,
			sort,
			ansi,
			env,
		})
		.boxed()
}
/// Each bit and pair of neighbouring bits of each result, alone and in TLV data.
fn every_bit() -> Vec<Case> {
	let mut cases = Vec::new();
	let mut add = |option: &str, data: Vec<u8>| {
		cases.push(Case {
			option: option.to_owned(),
			data: hex(&data),
			masks: vec![],
			sort: false,
			ansi: data.len() % 2 == 0,
			env: vec![],
		});
	};
	let patterns = |n: usize| {
		let mut all = vec![vec![0u8; n], vec![0xFF; n]];
		for bit in 0..n * 8 {
			let mut v = vec![0u8; n];
			v[bit / 8] |= 0x80 >> (bit % 8);
			let mut w = v.clone();
			w[(bit + 1) / 8 % n] |= 0x80 >> ((bit + 1) % 8);
			let not = v.iter().map(|b| !b).collect();
			all.extend([v, w, not]);
		}
		all
	};
	// Many bits of one severity, and with one of another
	let of_one_severity = |n: usize, severities: &dyn Fn(&[u8]) -> Option<Vec<Severity>>| {
		let bit = |i: usize| {
			let mut v = vec![0u8; n];
			v[i / 8] |= 0x80 >> (i % 8);
			v
		};
		let union = |bits: &[usize]| {
			bits.iter().fold(vec![0u8; n], |v, i| v.iter().zip(bit(*i)).map(|(a, b)| a | b).collect())
		};
		let kind = |i: usize| severities(&bit(i)).unwrap_or_default().into_iter().fold(Severity::Normal, |a, b| match (a, b) {
			(Severity::Error, _) | (_, Severity::Error) => Severity::Error,
			(Severity::Warning, _) | (_, Severity::Warning) => Severity::Warning,
			_ => Severity::Normal,
		});
		let mut all = Vec::new();
		let sets: Vec<Vec<usize>> = [Severity::Normal, Severity::Warning, Severity::Error]
			.into_iter()
			.map(|s| (0..n * 8).filter(|i| kind(*i) == s).collect())
			.collect();
		for (k, set) in sets.iter().enumerate() {
			for at in 0..=set.len() {
				all.push(union(&set[..at]));
				all.push(union(&set[at..]));
				let mut but = set.clone();
				if at < set.len() {
					but.remove(at);
				}
				all.push(union(&but));
				for (other, others) in sets.iter().enumerate() {
					if other != k && !others.is_empty() {
						let one = others[at % others.len()];
						for part in [&set[..at], &set[at..], set] {
							let mut bits = part.to_vec();
							bits.push(one);
							all.push(union(&bits));
						}
					}
				}
			}
		}
		all
	};
	let tlv = |tag: &[u8], v: &[u8]| {
		let mut out = Vec::new();
		crate::wire::Obj::bytes(tag, v).encode(&mut out);
		out
	};
	for v in of_one_severity(5, &|v| spec::severities(&[0x95], v)) {
		add("tvr", v.clone());
		add("ber-tlv", tlv(&[0x95], &v));
	}
	for v in of_one_severity(5, &spec::cvr_severities) {
		add("ccd-cvr", v.clone());
		let mut iad = vec![15, 0xA5, 1];
		iad.extend(&v);
		iad.extend([0x33; 8]);
		iad.push(15);
		iad.extend([0x44; 15]);
		add("ber-tlv", tlv(&[0x9F, 0x10], &iad));
	}
	for v in patterns(5) {
		add("tvr", v.clone());
		add("ccd-cvr", v.clone());
		let mut iad = vec![15, 0xA5, 1];
		iad.extend(&v);
		iad.extend([0x33; 8]);
		iad.push(15);
		iad.extend([0x44; 15]);
		add("ccd-iad", iad.clone());
		add("ber-tlv", tlv(&[0x9F, 0x10], &iad));
		// Action codes beside and around results
		for iac in [0x0D, 0x0E, 0x0F] {
			let mut block = tlv(&[0x95], &v);
			block.extend(tlv(&[0x9F, iac], &v));
			block.extend(tlv(&[0x95], &v));
			add("ber-tlv", block.clone());
			add("ber-tlv", tlv(&[0xE1], &block));
		}
		add("ber-tlv", tlv(&[0x9F, 0x40], &v));
	}
	for v in patterns(2) {
		add("tsi", v.clone());
		add("ber-tlv", tlv(&[0x9B], &v));
	}
	for v in patterns(3) {
		add("ber-tlv", tlv(&[0x9F, 0x33], &v));
	}
	for method in 0..=255u8 {
		for condition in [0u8, 3, 6, 0x0B, 0xFF] {
			for result in 0..3u8 {
				add("cvm-results", vec![method, condition, result]);
				if method % 8 == condition % 8 {
					add("ber-tlv", tlv(&[0x9F, 0x34], &[method, condition, result]));
				}
			}
		}
	}
	for n in 0..40u16 {
		add("service-code", vec![(n / 10 % 10) as u8, (n % 10) as u8 * 16]);
	}
	cases
}

/// Every kind of terminal, and other things that the environment may say.
fn terminals() -> (Vec<Case>, Vec<OnTerminal>) {
	let mut kinds: Vec<String> = TERMINALS.iter().map(|s| (*s).to_owned()).collect();
	kinds.extend(gen::dictionary().strings.iter().filter(|s| s.len() < 20 && !s.contains([' ', '\0'])).cloned());
	kinds.push(String::new());
	let mut envs: Vec<Vec<(String, String)>> = kinds.into_iter().map(|k| vec![("TERM".to_owned(), k)]).collect();
	for (name, values) in ABOUT_COLOUR {
		for value in *values {
			for term in [None, Some("xterm-256color"), Some("dumb")] {
				let mut env = vec![((*name).to_owned(), (*value).to_owned())];
				env.extend(term.map(|t| ("TERM".to_owned(), t.to_owned())));
				envs.push(env);
			}
		}
	}
	let questions = [("ber-tlv", "9505FCF8FCF8F09F0D05FCF8FCF8F0"), ("ccd-cvr", "C307FFFF00")];
	let (mut cases, mut on) = (Vec::new(), Vec::new());
	for (i, env) in envs.into_iter().enumerate() {
		for (j, (option, data)) in questions.into_iter().enumerate() {
			for ansi in [true, false] {
				let case = Case {
					option: option.to_owned(),
					data: data.to_owned(),
					masks: vec!['*'],
					sort: true,
					ansi,
					env: env.clone(),
				};
				if j == 0 {
					on.push(OnTerminal {
						case:   case.clone(),
						colour: if ansi { "ansi" } else { "always" }.to_owned(),
					});
					if !ansi && (i < TERMINALS.len() || env.len() > 1) {
						on.push(OnTerminal {
							case:   case.clone(),
							colour: "auto".to_owned(),
						});
					}
				}
				cases.push(case);
			}
		}
	}
	(cases, on)
}
const TERMINALS: &[&str] = &[
	"xterm", "xterm-color", "xterm-16color", "xterm-88color", "xterm-256color", "xterm-direct", "xterm-mono", "xterm-kitty", "vt52", "vt100", "vt102", "vt220", "vt320", "vt420", "linux", "linux-16color", "screen",
	"screen-256color", "tmux", "tmux-256color", "rxvt", "rxvt-unicode", "rxvt-256color", "Eterm", "aterm", "kterm", "konsole", "konsole-256color", "gnome", "gnome-256color", "alacritty", "foot", "wezterm", "st", "st-256color",
	"iterm", "iterm2", "nsterm", "Apple_Terminal", "cygwin", "msys", "mintty", "putty", "putty-256color", "ansi", "ansi.sys", "pcansi", "dtterm", "sun", "sun-color", "cons25", "wsvt25", "pccon", "hurd", "mach", "mach-color", "beterm",
	"emacs", "eterm-color", "dumb-emacs-ansi", "9term", "teletype", "tty", "tty33", "network", "dialup", "unknown", "plugboard", "patch", "switch", "wyse50", "wyse60", "adm3a", "hp", "ibm3151", "bterm", "fbterm", "jfbterm", "kon2",
	"XTERM", "Dumb", "DUMB", "dumb2", "none", "0", "-", "false", "never", "color", "colour", "truecolor", "24bit", "smart", "lisa", "vte", "vte-256color", "ghostty", "contour", "rio", "zellij", "nsterm-256color", "minix", "amiga", "qnx", "d430",
];
const ABOUT_COLOUR: &[(&str, &[&str])] = &[
	("COLORTERM", &["", "0", "1", "truecolor", "24bit", "no", "gnome-terminal", "rxvt"]),
	("TERM_PROGRAM", &["vscode", "Apple_Terminal", "iTerm.app", "WezTerm", "tmux", "mintty", "Hyper", "ghostty"]),
	("CI", &["", "0", "1", "true", "false"]),
	("GITHUB_ACTIONS", &["true"]),
	("GITLAB_CI", &["true"]),
	("TRAVIS", &["true"]),
	("JENKINS_URL", &["http://localhost"]),
	("BUILD_NUMBER", &["1"]),
	("TEAMCITY_VERSION", &["9.1"]),
	("TF_BUILD", &["True"]),
	("CLICOLOR", &["", "0", "1"]),
	("CLICOLOR_FORCE", &["", "0", "1"]),
	("NO_COLOR", &["1", "0", "true", "false"]),
	("NO_COLOUR", &["1"]),
	("NOCOLOR", &["1"]),
	("FORCE_COLOR", &["", "0", "1", "2", "3", "true", "false"]),
	("COLOR", &["0", "1", "never", "always"]),
	("COLORS", &["0", "1"]),
	("COLORFGBG", &["15;0", "0;15"]),
	("CARGO_TERM_COLOR", &["never", "always"]),
	("RUST_LOG_STYLE", &["never", "always"]),
	("LS_COLORS", &["", "di=34"]),
	("GREP_COLOR", &["1;31"]),
	("ANSICON", &["", "1", "80x25"]),
	("ConEmuANSI", &["ON", "OFF"]),
	("WT_SESSION", &["1"]),
	("MSYSTEM", &["MINGW64"]),
	("TMUX", &["/tmp/tmux,1,0"]),
	("STY", &["1.pts"]),
	("SSH_TTY", &["/dev/pts/0"]),
	("SSH_CONNECTION", &["::1 1 ::1 22"]),
	("INSIDE_EMACS", &["28.1,comint"]),
	("EMACS", &["t"]),
	("VIM", &["/usr/share/vim"]),
	("NVIM", &["x"]),
	("VTE_VERSION", &["6800", "0"]),
	("KONSOLE_VERSION", &["220401"]),
	("WINDOWID", &["1"]),
	("DISPLAY", &[":0", ""]),
	("WAYLAND_DISPLAY", &["wayland-0"]),
	("LANG", &["C", "POSIX", "en_US.UTF-8"]),
	("LC_ALL", &["C", "POSIX", "C.UTF-8"]),
	("PAGER", &["cat", "less"]),
	("LESS", &["-R"]),
	("COLUMNS", &["0", "1", "20", "80"]),
	("LINES", &["0", "1", "24"]),
	("DEBIAN_FRONTEND", &["noninteractive"]),
	("ACCESSIBILITY", &["1"]),
	("ACCESSIBLE", &["1"]),
];

pub fn run(ctx: &Ctx) -> i32 {
	let (colours, on_terminals) = terminals();
	ctx.each("terminals", true, &colours, check);
	ctx.each("on-every-terminal", true, &on_terminals, check_terminal);
	ctx.each("every-bit", true, &every_bit(), check);
	ctx.each("rows", true, &rows(), check);
	let scratch = ctx.scratch.clone();
	ctx.random("elsewhere", 6_000, elsewhere, |case: &Elsewhere| check_elsewhere(&scratch, case));
	ctx.random("colours", 22_000, case, check);
	ctx.random(
		"on-a-terminal",
		1_500,
		|| {
			(
				case(),
				prop_oneof![4 => Just("auto"), 1 => Just("always"), 1 => Just("ansi"), 1 => Just("never")],
			)
				.prop_map(|(case, colour)| OnTerminal {
					case,
					colour: colour.to_owned(),
				})
				.boxed()
		},
		check_terminal,
	);
	ctx.finish(
		"Every bit, its complement and each pair of neighbouring bits of every result, alone and in \
		 TLV data beside Issuer Action Codes; random values and nested TLV data of both formats. \
		 Each is run with colour always or ansi, never, and auto into a file: the coloured output \
		 without its codes has to be the uncoloured one, nothing may be left switched on, every \
		 line of a breakdown has to be wholly yellow, wholly red or neither as its condition's \
		 severity is, no other line yellow or red; no codes without colour. The environment says \
		 various things about colour, which may matter only for automatic colour on a terminal. Rows of up to 2,000 objects, and up to 249 within one another; some into pipes, sockets and files \
		 opened in various ways. Some \
		 are run on a pseudo-terminal of each of many kinds, where automatic colour has to be on unless TERM is dumb or \
		 NO_COLOR is set. Non-trivial: output, or a diagnostic, was compared.",
		&["whether automatic colour is on on a terminal without TERM, or with an empty NO_COLOR, isn't judged"],
	)
}
