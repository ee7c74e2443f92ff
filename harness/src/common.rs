//! What the checks share.

use serde::{Deserialize, Serialize};

use crate::{
	display::{parse_tlv, Shown},
	engine::Failure,
	exec::{self, End, Inv},
	spec::{self, Decoded, Diag},
	wire::{hex, Hex, Node, Obj},
};

/// A program's answer.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Answer {
	Breakdown(String),
	Diagnostic(String),
	/// Nothing at all.
	Silent,
}

pub fn show(inv: &Inv) -> String {
	let mut s = String::new();
	for (k, v) in &inv.env {
		s.push_str(&format!("{k}={v:?} "));
	}
	s.push_str("pemv");
	for a in &inv.args {
		s.push(' ');
		if a.chars().all(|c| c.is_ascii_graphic() && !"'\"\\$`*?;&|<>()#!~[]{}".contains(c)) {
			s.push_str(a);
		} else {
			s.push_str(&format!("{a:?}"));
		}
	}
	crate::display::clip(&s, 700)
}

pub fn text(bytes: &[u8]) -> String {
	String::from_utf8_lossy(bytes).into_owned()
}

/// Runs the program. Dying is a violation, and so is answering both ways.
pub fn answer(inv: &Inv) -> Result<Answer, Failure> {
	let out = exec::run(inv).map_err(Failure::Infra)?;
	classify(&out).map_err(|e| format!("{e}: {}", show(inv)).into())
}
pub fn classify(out: &exec::Out) -> Result<Answer, String> {
	let stderr = text(&out.stderr);
	match out.end {
		End::Code(101) => {
			return Err(format!("panicked ({})", crate::display::clip(&stderr, 200)));
		}
		End::Code(_) => {}
		End::Signal(libc::SIGXCPU) => {
			return Err(format!(
				"still working after {} s of CPU time",
				exec::CPU_LIMIT
			));
		}
		End::Signal(s) => {
			return Err(format!(
				"killed by signal {s} ({})",
				crate::display::clip(&stderr, 200)
			));
		}
	}
	if stderr.contains("panicked at") {
		return Err(format!("panicked ({})", crate::display::clip(&stderr, 200)));
	}
	match (out.stdout.is_empty(), stderr.is_empty()) {
		(true, true) => Ok(Answer::Silent),
		(false, true) => match String::from_utf8(out.stdout.clone()) {
			Ok(s) => Ok(Answer::Breakdown(s)),
			Err(_) => Err("standard output isn't UTF-8".to_owned()),
		},
		(true, false) => Ok(Answer::Diagnostic(stderr)),
		(false, false) => Err(format!(
			"answered both on standard output ({}) and on standard error ({})",
			crate::display::clip(&text(&out.stdout), 100),
			crate::display::clip(&stderr, 100)
		)),
	}
}

/// The breakdown, or a violation.
pub fn breakdown(inv: &Inv) -> Result<String, Failure> {
	match answer(inv)? {
		Answer::Breakdown(s) => Ok(s),
		Answer::Silent => Ok(String::new()),
		Answer::Diagnostic(d) => Err(format!(
			"valid input was refused ({}): {}",
			crate::display::clip(d.trim(), 120),
			show(inv)
		)
		.into()),
	}
}
/// The diagnostic, or a violation.
pub fn refusal(inv: &Inv) -> Result<Diag, Failure> {
	match answer(inv)? {
		Answer::Diagnostic(d) => {
			Diag::of(&d).ok_or_else(|| format!("the diagnostic is blank: {}", show(inv)).into())
		}
		Answer::Breakdown(s) => Err(format!(
			"invalid input was accepted: {}, which printed {}",
			show(inv),
			crate::display::clip(&s, 200)
		)
		.into()),
		Answer::Silent => Err(format!(
			"invalid input got neither a breakdown nor a diagnostic: {}",
			show(inv)
		)
		.into()),
	}
}
pub fn refused_as(inv: &Inv, want: &Diag) -> Result<(), Failure> {
	let got = refusal(inv)?;
	if got == *want {
		Ok(())
	} else {
		Err(format!(
			"refused as {got:?} where {want:?} was due: {}",
			show(inv)
		)
		.into())
	}
}
/// Puts the command line into a message.
pub fn at<T>(inv: &Inv, result: Result<T, String>) -> Result<T, Failure> {
	result.map_err(|e| format!("{e}: {}", show(inv)).into())
}

/// A TLV run; no masks means that nothing counts as masked.
pub fn tlv(option: &str, data: &str, masks: &[char], sort: bool) -> Inv {
	let mut args = Vec::new();
	for m in masks {
		args.push(format!("--masking-character={m}"));
	}
	if masks.is_empty() {
		args.push(format!("--masking-character={}", crate::gen::UNUSED_MASK));
	}
	if !sort {
		args.push("--no-sort-parsed-tags".to_owned());
	}
	args.push(format!("--{option}={data}"));
	Inv::new(args)
}
/// As [`tlv`], with the masking characters given by the environment, even if
/// there are none. `None`: they can't be spelt simply.
pub fn tlv_by_env(option: &str, data: &str, masks: &[char], sort: bool) -> Option<Inv> {
	if masks.iter().any(|m| m.is_control() || "\"\\".contains(*m)) {
		return None;
	}
	let quoted: Vec<String> = masks.iter().map(|m| format!("\"{m}\"")).collect();
	let mut args = Vec::new();
	if !sort {
		args.push("--no-sort-parsed-tags".to_owned());
	}
	args.push(format!("--{option}={data}"));
	let mut inv = Inv::new(args);
	inv.env.push(("PEMV_MASKING_CHARACTERS".to_owned(), format!("[{}]", quoted.join(", "))));
	Some(inv)
}
/// Numbers of tiny objects, up to as many as a command line holds.
pub const VERY_MANY: &[usize] = &[
	1_999, 2_048, 4_096, 4_999, 5_000, 5_001, 8_191, 9_999, 10_000, 10_001, 12_000, 14_900, 16_384, 20_000, 25_000, 27_400,
];
pub fn ber(bytes: &[u8], masks: &[char], sort: bool) -> Inv {
	tlv("ber-tlv", &hex(bytes), masks, sort)
}
pub fn single(option: &str, data: &str) -> Inv {
	Inv::new([format!("--{option}={data}")])
}

pub fn lines(s: &str) -> Vec<String> {
	s.lines().map(str::to_owned).collect()
}

/// Whether anything in the block is within a masked or undetermined zone isn't
/// asked here: just whether its decoded tags all admit their values.
pub fn admitted(nodes: &[Node]) -> bool {
	crate::spec::block_admitted(nodes) == Some(true)
}

/// Compares lines, with a message on the first difference.
pub fn same_lines(want: &[String], got: &[String]) -> Result<(), String> {
	for (i, (w, g)) in want.iter().zip(got).enumerate() {
		if w != g {
			return Err(format!(
				"line {} should be {} but is {}",
				i + 1,
				crate::display::clip(w, 160),
				crate::display::clip(g, 160)
			));
		}
	}
	if want.len() == got.len() {
		Ok(())
	} else {
		Err(format!(
			"{} lines are due but {} are shown",
			want.len(),
			got.len()
		))
	}
}

/// A command line short enough for the system.
pub fn fits(text: &str) -> bool {
	text.len() < 130_900
}

// Batches of values

/// Values under their tags, side by side and maybe inside constructed objects.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Batch {
	pub wraps:  u8,
	pub values: Vec<(Hex, Hex)>,
}
impl Batch {
	pub fn new(values: Vec<(Vec<u8>, Vec<u8>)>) -> Self {
		Self {
			wraps:  0,
			values: values
				.into_iter()
				.map(|(t, v)| (t.into(), v.into()))
				.collect(),
		}
	}

	pub fn bytes(&self) -> Vec<u8> {
		let mut v = Vec::new();
		for (tag, value) in &self.values {
			Obj::bytes(tag, value).encode(&mut v);
		}
		for i in 0..self.wraps {
			let tag: &[u8] = if i % 3 == 0 { &[0x77] } else { &[0xBF, 0x0C] };
			let mut w = Vec::new();
			Obj::bytes(tag, &v).encode(&mut w);
			v = w;
		}
		v
	}

	/// Runs the batch; gives the objects shown.
	pub fn shown(&self) -> Result<(Inv, Vec<Shown>), Failure> {
		let inv = ber(&self.bytes(), &[], false);
		let out = breakdown(&inv)?;
		let mut shown = at(&inv, parse_tlv(&out))?;
		for _ in 0..self.wraps {
			shown = shown.pop().map(|s| s.kids).unwrap_or_default();
		}
		if shown.len() != self.values.len() {
			return Err(format!(
				"{} objects were encoded, {} are shown: {}",
				self.values.len(),
				shown.len(),
				show(&inv)
			)
			.into());
		}
		for (s, (tag, value)) in shown.iter().zip(&self.values) {
			if s.tag != tag.0 || s.raw.as_ref().is_some_and(|r| *r != value.0) {
				return Err(format!(
					"{} is shown where {} was encoded: {}",
					hex(&s.tag),
					hex(tag),
					show(&inv)
				)
				.into());
			}
		}
		Ok((inv, shown))
	}

	/// Judges every object.
	pub fn judge(
		&self,
		judge: impl Fn(&[u8], &[u8], &Shown) -> Result<(), String>,
	) -> Result<usize, Failure> {
		let (inv, shown) = self.shown()?;
		for (s, (tag, value)) in shown.iter().zip(&self.values) {
			judge(tag, value, s).map_err(|e| {
				format!("{} = {}: {e}: {}", hex(tag), hex(value), show(&inv))
			})?;
		}
		Ok(shown.len())
	}
}

/// Numbers of objects, and places for another among that many.
pub fn crowds() -> Vec<(usize, usize)> {
	let around = |n: usize| n.saturating_sub(1)..=n + 2;
	let mut all: Vec<usize> = (0..=12).chain([20, 24, 25, 40, 150, 300, 400, 750, 1_500]).collect();
	for n in [16, 32, 48, 50, 64, 80, 100, 128, 200, 256, 500, 512, 1_000, 1_024] {
		all.extend(around(n));
	}
	let mut places = Vec::new();
	for n in all {
		for at in [0, n / 2, n.saturating_sub(1), n] {
			if !places.contains(&(n, at)) {
				places.push((n, at));
			}
		}
	}
	places
}
/// Each of the values, among every number of others.
pub fn crowded(values: &[(Vec<u8>, Vec<u8>)]) -> Vec<Batch> {
	let mut cases = Vec::new();
	for (i, value) in values.iter().enumerate() {
		for (k, (n, at)) in crowds().into_iter().enumerate() {
			let mut all = vec![(vec![0x5A], vec![0x12; (i + k) % 3]); n];
			all.insert(at, value.clone());
			let mut batch = Batch::new(all);
			batch.wraps = if (i + k) % 5 == 0 { 2 } else { 0 };
			cases.push(batch);
		}
	}
	cases
}

/// Cuts a list of values into batches.
pub fn batches(values: &[(Vec<u8>, Vec<u8>)], size: usize) -> Vec<Batch> {
	values
		.chunks(size)
		.enumerate()
		.map(|(i, c)| {
			let mut b = Batch::new(c.to_vec());
			b.wraps = [0, 0, 1, 2, 0, 5][i % 6];
			b
		})
		.collect()
}

/// The decoding shown is the one due.
pub fn decoded_as_due(tag: &[u8], value: &[u8], s: &Shown) -> Result<(), String> {
	let name = spec::shown_name(tag, value);
	if s.name != name {
		return Err(format!("should be named {name:?}, is named {:?}", s.name));
	}
	match spec::decode(tag, value) {
		Decoded::Lines(want) => match &s.parsed {
			Some(got) => same_lines(&want, got),
			None => Err("no decoded value is shown".to_owned()),
		},
		_ => match &s.parsed {
			Some(got) => Err(format!("shown decoded, as {got:?}")),
			None => Ok(()),
		},
	}
}
