use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};

use super::c19::brief;
use crate::{
	common::*,
	display::parse_tlv,
	engine::*,
	exec::Inv,
	gen, spec,
	wire::{encode_block, encode_ingenico, hex, Hex},
};

/// Every name of every option; one dash for one-letter ones.
const NAMES: &[&[&str]] = &[
	&["--tvr", "--95", "--iac", "--tac", "-t"],
	&["--ccd-iad", "--9F10", "--9f10", "--iad"],
	&["--ccd-cvr", "--cvr"],
	&["--tsi", "--9B", "--9b"],
	&["--cvm-results", "--9F34", "--9f34", "--cvm-result", "-r"],
	&["--cvm-list", "--8E", "--8e"],
	&["--service-code", "--5F30", "--5f30"],
	&["--identify", "--id"],
	&["--auto-tlv", "--auto", "--parse-tlv", "--parse", "-a"],
	&["--ber-tlv", "--ber", "-b"],
	&["--ingenico-tlv", "--ingenico", "-i"],
];
const COLOUR: &[&str] = &["--colour", "--color"];
const MASK: &[&str] = &["--masking-character", "--masking-char", "--masking", "-m"];
const SORT: &[&str] = &["--sort-parsed-tags", "--sort"];
const NO_SORT: &[&str] = &["--no-sort-parsed-tags", "--no-sort"];

/// The forms of giving a value.
const FORMS: usize = 3;
fn give(name: &str, value: &str, form: usize) -> Option<Vec<String>> {
	let short = !name.starts_with("--");
	match form % FORMS {
		0 => Some(vec![format!("{name}={value}")]),
		1 if value.starts_with('-') => None,
		1 => Some(vec![name.to_owned(), value.to_owned()]),
		_ if short && !value.starts_with('=') => Some(vec![format!("{name}{value}")]),
		_ => None,
	}
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Names {
	option: usize,
	value:  String,
	colour: Option<String>,
	mask:   Option<char>,
	/// The sorting option and its value.
	sort:   Option<(bool, Option<bool>)>,
	/// Picks names, forms and the order.
	pick:   u64,
}

fn invocation(case: &Names, pick: u64) -> Option<Inv> {
	let mut at = pick;
	let mut next = |n: usize| {
		let k = (at % n as u64) as usize;
		at /= n as u64;
		k
	};
	let names = NAMES[case.option % NAMES.len()];
	let name = names[next(names.len())];
	let operation = give(name, &case.value, next(FORMS))?;
	let mut settings: Vec<Vec<String>> = Vec::new();
	if let Some(c) = &case.colour {
		settings.push(give(COLOUR[next(COLOUR.len())], c, next(2))?);
	}
	if let Some(m) = case.mask {
		settings.push(give(MASK[next(MASK.len())], &m.to_string(), next(FORMS))?);
	}
	if let Some((no, value)) = case.sort {
		let names = if no { NO_SORT } else { SORT };
		let name = names[next(names.len())];
		settings.push(match value {
			None => vec![name.to_owned()],
			Some(v) => give(name, if v { "true" } else { "false" }, next(2))?,
		});
	}
	let first = next(settings.len() + 1);
	let mut args: Vec<String> = Vec::new();
	for (i, s) in settings.iter().enumerate() {
		if i == first {
			args.extend(operation.clone());
		}
		args.extend(s.clone());
	}
	if first >= settings.len() {
		args.extend(operation);
	}
	Some(Inv::new(args))
}
/// As far as the property tells answers apart: a refused command line's usage
/// notes depend on what was given.
fn comparable(answer: Answer) -> Answer {
	match answer {
		Answer::Diagnostic(d) if d.starts_with("error:") => {
			Answer::Diagnostic("the command line is refused".to_owned())
		}
		a => a,
	}
}
fn check_names(case: &Names) -> Checked {
	if case.value.is_empty() || case.value.contains('\0') {
		return seen(false, "no value");
	}
	let Some(first) = invocation(case, 0) else {
		return seen(false, "can't be written");
	};
	let want = comparable(answer(&first)?);
	let mut judged = 0;
	for k in 0..6u64 {
		let pick = case.pick.rotate_left(k as u32 * 11) >> 1;
		let Some(inv) = invocation(case, pick) else { continue };
		let got = comparable(answer(&inv)?);
		if got != want {
			return Err(format!(
				"{} is answered with {}, but {} with {}",
				show(&first),
				brief(&want, &got),
				show(&inv),
				brief(&got, &want)
			)
			.into());
		}
		judged += 1;
	}
	seen_n(
		judged > 0,
		match want {
			Answer::Breakdown(_) => "breakdown",
			Answer::Diagnostic(_) => "diagnostic",
			Answer::Silent => "silent",
		},
		judged,
	)
}

/// Single-value options and their tags.
const TAGGED: &[(&str, &[u8])] = &[
	("tvr", &[0x95]),
	("ccd-iad", &[0x9F, 0x10]),
	("tsi", &[0x9B]),
	("cvm-results", &[0x9F, 0x34]),
	("cvm-list", &[0x8E]),
	("service-code", &[0x5F, 0x30]),
	("iac", &[0x9F, 0x0D]),
	("iac", &[0x9F, 0x0E]),
	("iac", &[0x9F, 0x0F]),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Value {
	option:   usize,
	value:    Hex,
	ingenico: bool,
	wraps:    u8,
}
fn check_value(case: &Value) -> Checked {
	let (option, tag) = TAGGED[case.option % TAGGED.len()];
	if option == "service-code" && case.value.len() != 2 {
		return seen(false, "no number of its own");
	}
	if case.value.is_empty() {
		return seen(false, "empty");
	}
	let alone = single(option, &hex(&case.value));
	let mut batch = Batch::new(vec![(tag.to_vec(), case.value.0.clone())]);
	batch.wraps = case.wraps;
	let within = if case.ingenico {
		let (mut t, mut v) = (tag.to_vec(), case.value.0.clone());
		if case.wraps > 0 {
			let bytes = batch.bytes();
			let node = crate::wire::parse_ber(&bytes, &[]).ok().and_then(|mut n| n.pop());
			let Some(node) = node else {
				return Err(Failure::Infra("a batch can't be read".to_owned()));
			};
			(t, v) = (node.tag, node.value);
		}
		let rec = crate::wire::Rec {
			kind: 'T',
			tag: t.into(),
			len_bytes: 1,
			ascii: false,
			value: v.into(),
			lower_case: 0,
			separator: ';',
		};
		tlv("ingenico-tlv", &encode_ingenico(&[rec], false), &[], true)
	} else {
		ber(&batch.bytes(), &[], true)
	};
	let (a, w) = (answer(&alone)?, answer(&within)?);
	let parsed = match &w {
		Answer::Breakdown(out) => {
			let mut shown = at(&within, parse_tlv(out))?;
			for _ in 0..case.wraps {
				shown = shown.pop().map(|s| s.kids).unwrap_or_default();
			}
			match &shown[..] {
				[s] if s.tag == tag => Some(s.parsed.clone()),
				_ => {
					return Err(format!("the object isn't shown alone: {}", show(&within)).into());
				}
			}
		}
		_ => None,
	};
	let differ = |what: &str| -> Checked {
		Err(format!("{what}: {} and {}", show(&alone), show(&within)).into())
	};
	match (a, w, parsed) {
		(Answer::Breakdown(out), _, Some(Some(lines_within))) => {
			let lines_within = if option == "iac" {
				// An action code is headed by its name
				lines_within
					.iter()
					.skip(1)
					.map(|l| l.strip_prefix('\t').unwrap_or(l).to_owned())
					.collect()
			} else {
				lines_within
			};
			if let Err(e) = same_lines(&lines(&out), &lines_within) {
				return differ(&format!("in TLV data, {e}"));
			}
			seen(true, "same breakdown")
		}
		(Answer::Breakdown(_), _, _) => differ("only the option breaks the value down"),
		(Answer::Diagnostic(_), _, Some(Some(_))) => differ("only the TLV data's value is broken down"),
		(Answer::Diagnostic(_), _, Some(None)) if option == "ccd-iad" => {
			seen(true, "not CCD, annotated in TLV data")
		}
		(Answer::Diagnostic(x), Answer::Diagnostic(y), None) => {
			if x != y {
				return differ(&format!("rejected differently, with {x:?} and {y:?}"));
			}
			seen(true, "same diagnostic")
		}
		(Answer::Silent, ..) => differ("the option says nothing"),
		_ => differ("rejected only by the option"),
	}
}

fn value_for(option: usize) -> BoxedStrategy<Vec<u8>> {
	let (name, tag) = TAGGED[option % TAGGED.len()];
	let n = match name {
		"tvr" | "iac" => 5,
		"tsi" | "service-code" => 2,
		"cvm-results" => 3,
		"ccd-iad" => 32,
		_ => 10,
	};
	prop_oneof![
		5 => gen::valid_value(tag),
		2 => gen::bytes_of(n),
		1 => (gen::valid_value(tag), vec(gen::edit(), 1..3)).prop_map(|(mut v, edits)| {
			edits.iter().for_each(|e| gen::apply(e, &mut v));
			v
		}),
		1 => gen::bytes(40),
	]
	.boxed()
}
fn text_for(option: usize) -> BoxedStrategy<String> {
	let hexed = |s: BoxedStrategy<Vec<u8>>| s.prop_map(|v| hex(&v)).boxed();
	let right = match NAMES[option % NAMES.len()][0] {
		"--tvr" => hexed(value_for(0)),
		"--ccd-iad" => hexed(value_for(1)),
		"--ccd-cvr" => hexed(gen::bytes_of(5)),
		"--tsi" => hexed(value_for(2)),
		"--cvm-results" => hexed(value_for(3)),
		"--cvm-list" => hexed(value_for(4)),
		"--service-code" => prop_oneof![3 => "[0-9]{3}", 1 => "[0-9A-Z]{1,5}"].boxed(),
		"--identify" => prop_oneof![2 => hexed(gen::named_tag()), 1 => hexed(gen::any_tag())].boxed(),
		"--ingenico-tlv" => ingenico(),
		"--auto-tlv" => prop_oneof![ingenico(), ber_text()].boxed(),
		_ => ber_text(),
	};
	prop_oneof![
		8 => right,
		1 => "[0-9A-Fa-f :=,]{1,20}",
		1 => "[ -~]{1,12}",
		1 => select(vec!["=", "==95", "=0000000000", "a=b", "--", "-", "-1", "true", "@", "\"\"", "\u{e9}", "0"]).prop_map(str::to_owned),
	]
	.boxed()
}
fn ingenico() -> BoxedStrategy<String> {
	gen::recs(4, 12)
		.prop_map(|r| encode_ingenico(&r, false).replace('\0', ""))
		.boxed()
}
fn ber_text() -> BoxedStrategy<String> {
	gen::block(4, 2, 12).prop_map(|b| hex(&encode_block(&b))).boxed()
}

fn every_name() -> Vec<Names> {
	let values = [
		"AC00048000", "0FA501A030F8000000000000000000000F000102030405060708090A0B0C0D0E", "A50003A400", "E800", "420300",
		"000000000000000042031E031F00", "201", "9F02", "950500000080009A03250102", "9A03250102", "T9A:03:h250102,T95:05:h0000008000",
	];
	let mut cases = Vec::new();
	for option in 0..NAMES.len() {
		for pick in 0..150u64 {
			cases.push(Names {
				option,
				value: values[option].to_owned(),
				colour: None,
				mask: None,
				sort: None,
				pick: pick.wrapping_mul(0x9E37_79B9_7F4A_7C15),
			});
			if (8..=10).contains(&option) {
				cases.push(Names {
					option,
					value: values[option].to_owned(),
					colour: [None, Some("always"), Some("never")][pick as usize % 3].map(str::to_owned),
					mask: Some('0'),
					sort: Some((pick % 2 == 0, [None, Some(true), Some(false)][pick as usize / 2 % 3])),
					pick: pick.wrapping_mul(0x9E37_79B9_7F4A_7C15),
				});
			} else {
				cases.push(Names {
					option,
					value: values[option].to_owned(),
					colour: Some(["always", "ansi", "auto", "never", "mauve"][pick as usize % 5].to_owned()),
					mask: None,
					sort: None,
					pick: pick.wrapping_mul(0x9E37_79B9_7F4A_7C15),
				});
			}
		}
	}
	cases
}
fn every_value() -> Vec<Value> {
	let mut cases = Vec::new();
	for n in 0..=u16::MAX {
		if spec::bcd_service_code(&n.to_be_bytes()).is_some() || n % 97 == 0 {
			for option in [2, 5] {
				cases.push(Value {
					option,
					value: n.to_be_bytes().to_vec().into(),
					ingenico: n % 2 == 0,
					wraps: (n % 3) as u8,
				});
			}
		}
	}
	// Values with something around them that isn't part of them
	for option in 0..TAGGED.len() {
		let (name, tag) = TAGGED[option];
		let samples: &[&[u8]] = match name {
			"tvr" | "iac" => &[&[0x80, 0, 0x04, 0x80, 0], &[0; 5], &[0xFF; 5], &[0x95, 5, 0, 0, 0]],
			"tsi" => &[&[0xE8, 0], &[0, 0], &[0x9B, 2]],
			"cvm-results" => &[&[0x42, 3, 2], &[0x9F, 0x34, 3], &[0, 0, 0]],
			"ccd-iad" => &[&[
				15, 0xA5, 1, 0xA5, 0, 3, 0xA4, 0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
			]],
			"cvm-list" => &[&[0, 0, 0, 0, 0, 0, 0, 0, 0x42, 3, 0x1E, 3], &[0; 8], &[0x8E, 8, 0, 0, 0, 0, 0, 0, 0, 0]],
			_ => &[&[2, 1]],
		};
		for v in samples {
			let n = v.len() as u8;
			let mut dressed = vec![
				[tag, &[n], v].concat(),
				[tag, &[0x81, n], v].concat(),
				[tag, v].concat(),
				[&[n][..], v].concat(),
				[&[0x81, n][..], v].concat(),
				[&[0, n][..], v].concat(),
				[&[0x70, n + 1 + tag.len() as u8][..], tag, &[n], v].concat(),
				[*v, *v].concat(),
				[*v, *v, *v].concat(),
				[v, &[0x90, 0][..]].concat(),
				[v, tag, &[n], v].concat(),
				v.iter().flat_map(|b| [0, *b]).collect(),
				v.iter().flat_map(|b| [*b, 0]).collect(),
				v.iter().rev().copied().collect(),
				v.iter().flat_map(|b| format!("{b:02X}").into_bytes()).collect(),
				v.iter().flat_map(|b| format!("{b:02x}").into_bytes()).collect(),
				v.iter().flat_map(|b| format!("{b:08b}").into_bytes()).collect(),
			];
			for fill in [0u8, 0xFF, b' ', b'*', n] {
				for k in 1..=4 {
					dressed.push([v, &vec![fill; k][..]].concat());
					dressed.push([&vec![fill; k][..], v].concat());
				}
			}
			for k in 1..v.len().min(9) {
				dressed.push(v[k..].to_vec());
				dressed.push(v[..v.len() - k].to_vec());
			}
			for value in dressed {
				for ingenico in [false, true] {
					cases.push(Value {
						option,
						value: value.clone().into(),
						ingenico,
						wraps: 0,
					});
				}
			}
		}
	}
	for option in 0..TAGGED.len() {
		for len in 1..70usize {
			for fill in [0u8, 1, 0x0F, 0xA5] {
				for ingenico in [false, true] {
					cases.push(Value {
						option,
						value: vec![fill; len].into(),
						ingenico,
						wraps: (len % 2) as u8,
					});
				}
			}
		}
	}
	cases
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("every-name", false, &every_name(), check_names);
	ctx.each("every-size-and-service-code", true, &every_value(), check_value);
	ctx.random(
		"names",
		6_000,
		|| {
			(0..NAMES.len())
				.prop_flat_map(|option| {
					(
						Just(option),
						text_for(option),
						proptest::option::weighted(0.3, select(vec!["always", "ansi", "auto", "never", "Always", "sometimes"]).prop_map(str::to_owned)),
						proptest::option::weighted(if (8..=10).contains(&option) { 0.3 } else { 0.02 }, gen::mask_char()),
						proptest::option::weighted(if (8..=10).contains(&option) { 0.3 } else { 0.02 }, (any::<bool>(), any::<Option<bool>>())),
						any::<u64>(),
					)
				})
				.prop_map(|(option, value, colour, mask, sort, pick)| Names {
					option,
					value,
					colour,
					mask,
					sort,
					pick,
				})
				.boxed()
		},
		check_names,
	);
	ctx.random(
		"values",
		25_000,
		|| {
			(0..TAGGED.len())
				.prop_flat_map(|option| (Just(option), value_for(option), any::<bool>(), gen::wraps()))
				.prop_map(|(option, value, ingenico, wraps)| Value {
					option,
					value: value.into(),
					ingenico,
					wraps,
				})
				.boxed()
		},
		check_value,
	);
	ctx.finish(
		"Every name of every option, its value after an equals sign, as the next argument and \
		 (one-letter names) attached, alone and with the settings' options by each of their names \
		 in different orders, with valid values and others (some wrapped, quoted or prefixed as other programs write them): the answer has to be the same, \
		 whatever it is. Single-value options against the same value under its tag in TLV data of \
		 both formats: same lines, or same diagnostic. Non-trivial: a comparison was made.",
		&[
			"a value that starts with a dash is given after an equals sign only",
			"the options' documented names are those of the program's help, the hidden aliases included",
		],
	)
}
