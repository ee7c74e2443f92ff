use std::path::Path;

use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};

use super::c21::Dir;
use crate::{common::*, engine::*, exec::Inv, gen};

/// The parsing options with a valid value; whether they're TLV options.
const OPERATIONS: &[(&str, &str, bool)] = &[
	("--ber-tlv", "9A03250102", true),
	("--ingenico-tlv", "T9A:03:h250102", true),
	("--auto-tlv", "9F0206000000000100", true),
	("--tvr", "0000008000", false),
	("--ccd-iad", "0FA501A030F8000000000000000000000F000102030405060708090A0B0C0D0E", false),
	("--ccd-cvr", "A50003A400", false),
	("--tsi", "E800", false),
	("--cvm-results", "420302", false),
	("--cvm-list", "000000000000000042031E031F00", false),
	("--service-code", "201", false),
	("--identify", "9F02", false),
];
const SHORT: &[(&str, usize)] = &[("-b", 0), ("-i", 1), ("-a", 2), ("-t", 3), ("-r", 7)];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Part {
	/// One of [`OPERATIONS`], its value given as the next argument or not.
	Operation { which: usize, next: bool },
	/// The one-letter name.
	Short { which: usize },
	Mask { value: char, name: usize },
	Sort { no: bool, value: Option<bool>, name: usize },
	Colour { value: String, name: usize },
	// Faults
	NoValue { option: String },
	Empty { option: String, next: bool },
	BadValue { option: String, value: String },
	/// Something the program doesn't have.
	Stranger { args: Vec<String> },
}
const MASK: &[&str] = &["--masking-character", "--masking-char", "--masking", "-m"];
const SORT: &[&str] = &["--sort-parsed-tags", "--sort"];
const NO_SORT: &[&str] = &["--no-sort-parsed-tags", "--no-sort"];
const COLOUR: &[&str] = &["--colour", "--color"];
/// The options that need a value.
const VALUED: &[&str] = &[
	"--ber-tlv", "--ingenico-tlv", "--auto-tlv", "--tvr", "--ccd-iad", "--ccd-cvr", "--tsi", "--cvm-results", "--cvm-list",
	"--service-code", "--identify", "-b", "-i", "-a", "-t", "-r", "--colour", "--color", "--masking-character", "--masking", "-m",
];
const BAD_VALUES: &[(&str, &[&str])] = &[
	("--colour", &["blue", "on", "off", "yes", "true", "alway", "alwaysx", "auto,never", "1", "-", "NEVER", "Always", "aUto", "ANSI", "Never", " never", "never ", "auto\n", "alw", "an", "n", "autoo", "auto always", "\"auto\"", "always;", "0", "default", "none"]),
	("--color", &["sometimes", "none", "ALWAYS", "Auto", "nEver"]),
	("--masking-character", &["**", "ab", "*#", "XX", "\u{e9}\u{e9}", "null"]),
	("-m", &["**", "*,#"]),
	("--sort-parsed-tags", &["maybe", "2", "truee", "tru", "-1", "asc", "TRUE", "True", "FALSE", "t", "f", "1", "0", "yes", "no", "on", "off", " true", "true ", "y", "n", "desc"]),
	("--sort", &["maybe", "ffalse", "False", "tRUE", "no", "0"]),
	("--no-sort-parsed-tags", &["maybe", "3", "falsee", "none", "TRUE", "True", "False", "1", "0", "yes", "on", "t"]),
	("--no-sort", &["perhaps", "FALSE", "True", "y"]),
];

fn arguments(parts: &[Part]) -> Vec<String> {
	let mut args = Vec::new();
	for p in parts {
		match p {
			Part::Operation { which, next } => {
				let (name, value, _) = OPERATIONS[*which % OPERATIONS.len()];
				if *next {
					args.extend([name.to_owned(), value.to_owned()]);
				} else {
					args.push(format!("{name}={value}"));
				}
			}
			Part::Short { which } => {
				let (name, which) = SHORT[*which % SHORT.len()];
				args.extend([name.to_owned(), OPERATIONS[which].1.to_owned()]);
			}
			Part::Mask { value, name } => args.push(format!("{}={value}", MASK[*name % MASK.len()])),
			Part::Sort { no, value, name } => {
				let names = if *no { NO_SORT } else { SORT };
				let name = names[*name % names.len()];
				args.push(match value {
					None => name.to_owned(),
					Some(v) => format!("{name}={v}"),
				});
			}
			Part::Colour { value, name } => args.push(format!("{}={value}", COLOUR[*name % COLOUR.len()])),
			Part::NoValue { option } => args.push(option.clone()),
			Part::Empty { option, next: true } => args.extend([option.clone(), String::new()]),
			Part::Empty { option, next: false } => args.push(format!("{option}=")),
			Part::BadValue { option, value } => args.push(format!("{option}={value}")),
			Part::Stranger { args: all } => args.extend(all.iter().cloned()),
		}
	}
	args
}
/// All names of options.
const NAMES: &[&str] = &[
	"help", "version", "colour", "color", "masking-character", "masking-char", "masking", "sort-parsed-tags", "sort", "no-sort-parsed-tags", "no-sort", "identify", "id", "auto-tlv", "auto",
	"parse-tlv", "parse", "ber-tlv", "ber", "ingenico-tlv", "ingenico", "tvr", "95", "iac", "tac", "ccd-iad", "9F10", "9f10", "iad", "ccd-cvr", "cvr", "tsi", "9B", "9b", "cvm-results", "9F34",
	"9f34", "cvm-result", "cvm-list", "8E", "8e", "service-code", "5F30", "5f30",
];
/// Options and arguments that the program doesn't have.
fn strangers() -> Vec<Vec<String>> {
	let mut names: Vec<String> = Vec::new();
	for name in NAMES {
		// Parts of names, and names written otherwise
		names.extend((1..name.len()).map(|n| name[..n].to_owned()));
		names.extend((1..name.len()).map(|n| name[n..].to_owned()));
		names.extend((0..name.len()).map(|n| format!("{}{}", &name[..n], &name[n + 1..])));
		names.extend([
			name.to_uppercase(),
			name.to_lowercase(),
			name[..1].to_uppercase() + &name[1..],
			name.replace('-', "_"),
			name.replace('-', ""),
			name.replace('-', "."),
		]);
		names.extend(["s", "-", "x", "-tlv", "-file", "?", "!", ":"].map(|end| format!("{name}{end}")));
		names.extend(["-", "no-", "no", "not-", "emv-", "with-"].map(|start| format!("{start}{name}")));
	}
	let others = "file input output out stdin config profile format json xml raw quiet silent verbose debug trace log dry-run force yes all list test usage man \
	              license licence credits about update completions generate mask unmask encoding hex base64 ascii strict lenient width wrap indent depth lang language locale plain \
	              ansi always never no-colour no-color pager no-pager arc 8A 9C 9F33 9F40 9F35 9F39 aip 82 aid 4F cid 9F27 cvm track2 57 pan 5A dol cdol pdol x 1";
	names.extend(others.split(' ').map(str::to_owned));
	names.sort();
	names.dedup();
	let mut all: Vec<Vec<String>> = Vec::new();
	for n in &names {
		if n.is_empty() || NAMES.contains(&&n[..]) {
			continue;
		}
		all.push(vec![format!("--{n}")]);
		all.push(vec![format!("--{n}=5A00")]);
		all.push(vec![format!("--{n}"), "5A00".to_owned()]);
		all.push(vec![format!("--{n}=true")]);
	}
	// Words of their own
	for n in names.iter().map(String::as_str).chain(NAMES.iter().copied()) {
		if n.chars().count() > 1 && !n.starts_with('-') {
			all.push(vec![n.to_owned()]);
			all.push(vec![n.to_owned(), "5A00".to_owned()]);
			all.push(vec![format!("{n}=5A00")]);
			all.push(vec![format!("/{n}")]);
			all.push(vec![format!("+{n}")]);
		}
	}
	for word in ["5A00", "9F0206000000000100", "T9A:03:h250102", "0000008000", "201", "x.toml", "x.txt", "/dev/stdin", "@x.txt", "**", "  ", "\u{e9}\u{e9}", "*.txt", "/?", "/h", "help me"] {
		all.push(vec![word.to_owned()]);
		all.push(vec![word.to_owned(), word.to_owned()]);
	}
	for c in (0x21u8..0x7F).map(char::from).filter(|c| !"-abitrmhV?=".contains(*c)) {
		all.push(vec![format!("-{c}")]);
		all.push(vec![format!("-{c}=5A00")]);
		all.push(vec![format!("-{c}"), "5A00".to_owned()]);
	}
	all
}
fn every_stranger() -> Vec<Line> {
	let mut cases = Vec::new();
	for (i, args) in strangers().into_iter().enumerate() {
		let stranger = Part::Stranger { args };
		let operation = Part::Operation { which: i, next: i / 11 % 2 == 0 };
		let tlv = Part::Operation { which: i % 3, next: i / 3 % 2 == 0 };
		let setting = match i % 4 {
			0 => Part::Sort { no: i / 4 % 2 == 0, value: Some(true), name: i / 8 % 2 },
			1 => Part::Mask { value: '#', name: i / 4 % 3 },
			_ => Part::Colour { value: ["never", "always"][i / 4 % 2].to_owned(), name: i / 8 % 2 },
		};
		for parts in [
			vec![stranger.clone()],
			vec![stranger.clone(), operation.clone()],
			vec![operation, stranger.clone()],
			vec![setting.clone(), stranger.clone(), tlv.clone()],
			vec![tlv, setting, stranger],
		] {
			cases.push(Line { parts });
		}
	}
	cases
}
/// The fault of a command line, if it has one. `None`: not determined.
fn fault(parts: &[Part]) -> Option<Option<&'static str>> {
	let is_op = |o: &str| OPERATIONS.iter().any(|(n, ..)| *n == o) || SHORT.iter().any(|(n, _)| *n == o);
	let (mut operations, mut any_tlv, mut tlv_only, mut sort, mut no_sort, mut colours) = (0, false, false, 0, 0, 0);
	let mut faulty = None;
	for (i, p) in parts.iter().enumerate() {
		match p {
			Part::Operation { which, .. } => {
				operations += 1;
				any_tlv |= OPERATIONS[*which % OPERATIONS.len()].2;
			}
			Part::Short { which } => {
				operations += 1;
				any_tlv |= OPERATIONS[SHORT[*which % SHORT.len()].1].2;
			}
			Part::Mask { .. } => tlv_only = true,
			Part::Sort { no: true, .. } => {
				tlv_only = true;
				no_sort += 1;
			}
			Part::Sort { .. } => {
				tlv_only = true;
				sort += 1;
			}
			Part::Colour { .. } => colours += 1,
			Part::NoValue { option } => {
				// What follows starts with a dash
				let _ = (i, is_op(option));
				faulty = Some("missing value");
			}
			Part::Empty { .. } => faulty = Some("empty value"),
			Part::BadValue { .. } => faulty = Some("invalid setting"),
			Part::Stranger { .. } => faulty = Some("no such option or argument"),
		}
	}
	if faulty.is_some() {
		return Some(faulty);
	}
	if operations > 1 {
		return Some(Some("two parsing options"));
	}
	if sort > 0 && no_sort > 0 {
		return Some(Some("both sort options"));
	}
	if tlv_only && !any_tlv {
		return Some(Some("TLV-only setting without a TLV option"));
	}
	if sort > 1 || no_sort > 1 || colours > 1 || operations == 0 {
		return None;
	}
	Some(None)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Line {
	parts: Vec<Part>,
}
fn check_line(case: &Line) -> Checked {
	let inv = Inv::new(arguments(&case.parts));
	match fault(&case.parts) {
		None => {
			answer(&inv)?;
			seen(false, "not determined")
		}
		Some(Some(what)) => {
			refusal(&inv)?;
			// As a fault of the command line, not as one of the data
			let ends = |inv: &Inv| crate::exec::run(inv).map(|o| o.end).map_err(Failure::Infra);
			let (got, due) = (ends(&inv)?, ends(&Inv::new(["--ber-tlv", "5A00", "--tvr", "0000000000"]))?);
			if got != due {
				return Err(format!("the fault ({what}) isn't refused like another one of the command line ({got:?}, not {due:?}): {}", show(&inv)).into());
			}
			seen(true, what)
		}
		Some(None) => {
			let out = breakdown(&inv)?;
			if out.is_empty() {
				return Err(format!("there's no breakdown: {}", show(&inv)).into());
			}
			seen(true, "no fault")
		}
	}
}

// Environment and file

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Settings {
	operation: usize,
	/// What the variables say.
	env:       Vec<(String, String)>,
	/// What the file's table says.
	table:     Option<(String, Vec<String>)>,
	/// The file's named by the variable.
	named:     bool,
	/// Whether any of the values is of the wrong kind.
	wrong:     bool,
	/// Variables that are no settings of a wrong kind: a profile without a table,
	/// a file that isn't there, names that mean nothing.
	#[serde(default)]
	strange:   Vec<(String, String)>,
	/// Tables that aren't in use, before and after the other one.
	#[serde(default)]
	others:    Vec<(String, Vec<String>)>,
}
fn check_settings(scratch: &Path, case: &Settings) -> Checked {
	let (name, value, _) = OPERATIONS[case.operation % OPERATIONS.len()];
	let dir = Dir::new(scratch)?;
	let mut env = case.env.clone();
	if let Some((table, content)) = &case.table {
		let mut tables = vec![(table, content)];
		for (i, (name, lines)) in case.others.iter().enumerate() {
			if !["global", "default", table].iter().any(|n| n.eq_ignore_ascii_case(name)) {
				tables.insert(if i % 2 == 0 { 0 } else { tables.len() }, (name, lines));
			}
		}
		let content: String = tables.iter().map(|(table, content)| format!("[{table}]\n{}\n", content.join("\n"))).collect();
		if case.named {
			dir.write("settings/x.toml", &content)?;
			env.push(("PEMV_CONFIG".to_owned(), dir.0.join("settings/x.toml").display().to_string()));
		} else {
			dir.write("pemv.toml", &content)?;
		}
		if table != "global" && table != "default" {
			env.push(("PEMV_PROFILE".to_owned(), table.clone()));
		}
	}
	for (k, v) in &case.strange {
		if !env.iter().any(|(n, _)| n == k) && !(k == "PEMV_CONFIG" && case.table.is_some()) {
			env.push((k.clone(), v.clone()));
		}
	}
	let inv = Inv {
		args: vec![format!("{name}={value}")],
		env,
		cwd: Some(dir.0.clone()),
	};
	let of = |f: Failure| match f {
		Failure::Violation(m) => match &case.table {
			Some((t, c)) => {
				let others: String = case.others.iter().map(|(t, c)| format!("; not in use: [{t}] {}", c.join("; "))).collect();
				Failure::Violation(format!("{m} (file: [{t}] {}{others})", c.join("; ")))
			}
			None => Failure::Violation(m),
		},
		f => f,
	};
	if case.wrong {
		refusal(&inv).map_err(of)?;
		return seen(true, if case.table.is_some() { "wrong kind in the file" } else { "wrong kind in the environment" });
	}
	let out = breakdown(&inv).map_err(of)?;
	if out.is_empty() {
		return Err(of(format!("there's no breakdown: {}", show(&inv)).into()));
	}
	seen(true, "valid settings")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct File {
	content:   String,
	operation: usize,
}
/// A file of any content: an answer, whatever it is.
fn check_file(scratch: &Path, case: &File) -> Checked {
	let (name, value, _) = OPERATIONS[case.operation % OPERATIONS.len()];
	let dir = Dir::new(scratch)?;
	dir.write("pemv.toml", &case.content)?;
	let inv = Inv {
		args: vec![format!("{name}={value}")],
		env: vec![],
		cwd: Some(dir.0.clone()),
	};
	match answer(&inv) {
		Ok(Answer::Breakdown(_)) => seen(true, "any file, breakdown"),
		Ok(Answer::Diagnostic(_)) => seen(true, "any file, diagnostic"),
		Ok(Answer::Silent) => Err(format!("no answer with the file {:?}: {}", case.content, show(&inv)).into()),
		Err(Failure::Violation(m)) => Err(format!("{m} (file: {:?})", case.content).into()),
		Err(f) => Err(f),
	}
}

const WRONG_ENV: &[(&str, &[&str])] = &[
	("PEMV_CLI_COLOUR", &["blue", "5", "true", "[\"always\"]", "1.5", "alway", "\"on\"", "[]", "autos"]),
	("PEMV_MASKING_CHARACTERS", &["*", "5", "true", "[\"ab\"]", "[\"\"]", "\"*\"", "[5]", "[\"*\", \"ab\"]", "[true]", "[[\"*\"]]", "1.5"]),
	("PEMV_SORT_PARSED_TAGS", &["maybe", "12", "1", "0", "yes", "\"true\"", "[true]", "1.5", "[]", "truee"]),
];
const RIGHT_ENV: &[(&str, &[&str])] = &[
	("PEMV_CLI_COLOUR", &["always", "ansi", "auto", "never", "\"never\""]),
	("PEMV_MASKING_CHARACTERS", &["[\"*\"]", "[\"*\", \"#\"]", "[]", "[\"\u{e9}\"]", "[\"0\"]"]),
	("PEMV_SORT_PARSED_TAGS", &["true", "false"]),
];
const WRONG_FILE: &[(&str, &[&str])] = &[
	("cli_colour", &["\"blue\"", "5", "true", "[\"always\"]", "\"\"", "1.5", "\"autos\"", "[]"]),
	("masking_characters", &["\"*\"", "5", "true", "[\"ab\"]", "[\"\"]", "[5]", "[\"*\", \"ab\"]", "[true]", "[[\"*\"]]", "2.5"]),
	("sort_parsed_tags", &["\"maybe\"", "12", "1", "0", "\"true\"", "[true]", "\"\"", "0.5", "[]", "1979-05-27"]),
];
const RIGHT_FILE: &[(&str, &[&str])] = &[
	("cli_colour", &["\"always\"", "\"ansi\"", "\"auto\"", "\"never\"", "'never'"]),
	("masking_characters", &["[\"*\"]", "[\"*\", \"#\"]", "[]", "['X', \"\\u00e9\"]", "[\"0\"]"]),
	("sort_parsed_tags", &["true", "false"]),
];

/// Keys that mean nothing.
const UNKNOWN: &[&str] = &[
	"colour = 'blue'", "color = 5", "cli_color = 'blue'", "cli-colour = 'blue'", "cliColour = 'x'", "CLI_COLOUR = 'x'", "Cli_Colour = 5", "cli_colours = []", "cli_colou = 1", "masking_character = '**'", "masking = 5",
	"masking-characters = 'x'", "masking_characters_ = 5", "MASKING_CHARACTERS = 5", "mask = true", "sort = 'maybe'", "sort_tags = 5", "sort_parsed = 'x'", "sort-parsed-tags = 'x'", "sort_parsed_tag = 1", "no_sort_parsed_tags = 5",
	"no_sort = 'x'", "SORT_PARSED_TAGS = 5", "profile = 'other'", "profile = 5", "config = 'other.toml'", "config = 5", "version = '99'", "include = 'x.toml'", "inherits = 'other'", "other = 5", "x = []", "x = {}", "x = { a = 1 }",
	"x = [[1], ['a']]", "x.y.z = true", "\"\" = 1", "'a b' = 1", "'\u{e9}' = '\u{e9}'", "x = 1979-05-27T07:32:00Z", "x = nan", "x = -9223372036854775808", "tvr = '80'", "help = true", "global = 5", "default = 5",
];
const STRANGE: &[(&str, &str)] = &[
	("PEMV_PROFILE", "nowhere"),
	("PEMV_PROFILE", "Default"),
	("PEMV_PROFILE", "release"),
	("PEMV_PROFILE", "a b"),
	("PEMV_CONFIG", "missing.toml"),
	("PEMV_CONFIG", "/nonexistent/x.toml"),
	("PEMV_CONFIG", "missing/pemv.toml"),
	("PEMV_OTHER", "5"),
	("PEMV_TVR", "[1"),
	("PEMV_COLOUR", "blue"),
	("PEMV_SORT", "maybe"),
	("PEMV_MASKING", ""),
];

fn every_pair() -> Vec<Line> {
	let mut cases = Vec::new();
	let op = |which, next| Part::Operation { which, next };
	for a in 0..OPERATIONS.len() {
		for b in 0..OPERATIONS.len() {
			cases.push(vec![op(a, false), op(b, false)]);
			cases.push(vec![op(a, true), op(b, a % 2 == 0)]);
			cases.push(vec![op(a, false), op(b, true), op((a + b) % 11, true)]);
		}
		for b in 0..SHORT.len() {
			cases.push(vec![op(a, a % 2 == 0), Part::Short { which: b }]);
			cases.push(vec![Part::Short { which: b }, op(a, a % 2 == 0)]);
		}
		for next in [false, true] {
			cases.push(vec![op(a, next)]);
			for c in ["always", "ansi", "auto", "never"] {
				for name in 0..2 {
					let colour = Part::Colour { value: c.to_owned(), name };
					cases.push(vec![colour.clone(), op(a, next)]);
					cases.push(vec![op(a, next), colour]);
				}
			}
			for name in 0..4 {
				for value in ['*', '#', ' ', '\u{e9}', '0'] {
					let mask = Part::Mask { value, name };
					cases.push(vec![op(a, next), mask.clone()]);
					cases.push(vec![mask.clone(), op(a, next)]);
					cases.push(vec![mask.clone(), op(a, next), Part::Mask { value: 'X', name: name + 1 }]);
					cases.push(vec![mask]);
				}
			}
			for no in [false, true] {
				for value in [None, Some(true), Some(false)] {
					for name in 0..2 {
						let sort = Part::Sort { no, value, name };
						cases.push(vec![op(a, next), sort.clone()]);
						cases.push(vec![sort.clone(), op(a, next)]);
						cases.push(vec![sort.clone(), op(a, next), Part::Mask { value: '*', name: 0 }]);
						for other in [None, Some(true), Some(false)] {
							let second = Part::Sort { no: !no, value: other, name };
							cases.push(vec![op(a, next), sort.clone(), second.clone()]);
							cases.push(vec![sort.clone(), op(a, next), second.clone()]);
							cases.push(vec![sort.clone(), second]);
						}
						cases.push(vec![sort]);
					}
				}
			}
			for option in VALUED {
				let none = Part::NoValue { option: (*option).to_owned() };
				cases.push(vec![op(a, next), none.clone()]);
				if *option != "-m" && !option.starts_with("--mask") {
					cases.push(vec![none.clone(), op(a, next)]);
				}
				cases.push(vec![none]);
				for attached in [false, true] {
					// A one-letter option's empty value can only be the next argument
					if attached && !option.starts_with("--") {
						continue;
					}
					let empty = Part::Empty { option: (*option).to_owned(), next: !attached };
					cases.push(vec![op(a, next), empty.clone()]);
					cases.push(vec![empty.clone(), op(a, next)]);
					cases.push(vec![empty]);
				}
			}
			for (option, values) in BAD_VALUES {
				for v in *values {
					let bad = Part::BadValue { option: (*option).to_owned(), value: (*v).to_owned() };
					cases.push(vec![op(a, next), bad.clone()]);
					cases.push(vec![bad.clone(), op(a, next)]);
				}
			}
		}
	}
	cases.into_iter().map(|parts| Line { parts }).collect()
}
fn every_setting() -> Vec<Settings> {
	let mut cases = Vec::new();
	for operation in 0..OPERATIONS.len() {
		for (wrong, list) in [(true, WRONG_ENV), (false, RIGHT_ENV)] {
			for (name, values) in list {
				for v in *values {
					cases.push(Settings {
						operation,
						env: vec![((*name).to_owned(), (*v).to_owned())],
						table: None,
						named: false,
						wrong,
						strange: vec![],
						others: vec![],
					});
				}
			}
		}
		for (k, v) in STRANGE {
			for table in [None, Some("global"), Some("default"), Some("work")] {
				cases.push(Settings {
					operation,
					env: vec![],
					table: table.map(|t| (t.to_owned(), vec!["sort_parsed_tags = false".to_owned(), "other = 5".to_owned()])),
					named: operation % 2 == 0,
					wrong: false,
					strange: vec![((*k).to_owned(), (*v).to_owned())],
					others: vec![],
				});
			}
		}
		// What isn't in use, and means nothing
		for (k, (key, values)) in WRONG_FILE.iter().enumerate() {
			for (j, v) in values.iter().enumerate() {
				for (i, table) in ["global", "default", "work"].into_iter().enumerate() {
					let line = format!("{key} = {v}");
					for other in ["other", "elsewhere", "a", "zz", "globals", "default2", "workx", "wor"] {
						let wrong = (i + j + k) % 7 == 0;
						let lines = match (i + j) % 3 {
							_ if wrong => vec![line.clone()],
							0 => vec!["cli_colour = 'never'".to_owned(), "masking_characters = ['#']".to_owned(), "sort_parsed_tags = true".to_owned()],
							_ => vec![],
						};
						cases.push(Settings {
							operation,
							env: vec![],
							table: Some((table.to_owned(), lines)),
							named: (i + j) % 2 == 0,
							wrong,
							strange: vec![],
							others: vec![(other.to_owned(), vec![line.clone()])],
						});
					}
				}
			}
		}
		for (j, unknown) in UNKNOWN.iter().enumerate() {
			for table in ["global", "default", "work"] {
				let mut lines = vec![(*unknown).to_owned()];
				if j % 3 == 1 {
					lines.insert(0, "sort_parsed_tags = false".to_owned());
				}
				cases.push(Settings {
					operation,
					env: vec![],
					table: Some((table.to_owned(), lines)),
					named: j % 2 == 0,
					wrong: false,
					strange: vec![],
					others: if j % 4 == 0 { vec![("unrelated".to_owned(), vec![(*unknown).to_owned()])] } else { vec![] },
				});
			}
		}
		for (wrong, list) in [(true, WRONG_FILE), (false, RIGHT_FILE)] {
			for (key, values) in list {
				for v in *values {
					for (i, table) in ["global", "default", "work"].into_iter().enumerate() {
						cases.push(Settings {
							operation,
							env: vec![],
							table: Some((table.to_owned(), vec![format!("{key} = {v}")])),
							named: (i + operation) % 2 == 0,
							wrong,
							strange: vec![],
							others: vec![],
						});
					}
				}
			}
		}
	}
	cases
}

fn part() -> BoxedStrategy<Part> {
	prop_oneof![
		3 => (0..OPERATIONS.len(), any::<bool>()).prop_map(|(which, next)| Part::Operation { which, next }),
		1 => (0..SHORT.len()).prop_map(|which| Part::Short { which }),
		3 => (gen::mask_char(), 0..4usize).prop_map(|(value, name)| Part::Mask { value, name }),
		3 => (any::<bool>(), any::<Option<bool>>(), 0..2usize).prop_map(|(no, value, name)| Part::Sort { no, value, name }),
		3 => (select(vec!["always", "ansi", "auto", "never"]), 0..2usize).prop_map(|(v, name)| Part::Colour { value: v.to_owned(), name }),
		1 => (select(VALUED.to_vec()), any::<bool>()).prop_map(|(o, next)| Part::Empty { option: o.to_owned(), next: next || !o.starts_with("--") }),
		1 => select(strangers()).prop_map(|args| Part::Stranger { args }),
		1 => select(BAD_VALUES.to_vec()).prop_flat_map(|(o, v)| (Just(o), select(v.to_vec()))).prop_map(|(o, v)| Part::BadValue { option: o.to_owned(), value: v.to_owned() }),
	]
	.boxed()
}
fn line() -> BoxedStrategy<Line> {
	let tlv = (0..3usize, any::<bool>()).prop_map(|(which, next)| Part::Operation { which, next });
	let mixed = (
		vec(part(), 0..6),
		proptest::option::weighted(0.1, select(VALUED.to_vec())),
	)
		.prop_map(|(mut parts, last)| {
			if let Some(o) = last {
				parts.push(Part::NoValue { option: o.to_owned() });
			}
			parts
		});
	// Valid ones
	let valid = (
		vec((gen::mask_char(), 0..4usize).prop_map(|(value, name)| Part::Mask { value, name }), 0..4),
		proptest::option::of((any::<bool>(), any::<Option<bool>>(), 0..2usize).prop_map(|(no, value, name)| Part::Sort { no, value, name })),
		proptest::option::of((select(vec!["always", "ansi", "auto", "never"]), 0..2usize).prop_map(|(v, name)| Part::Colour { value: v.to_owned(), name })),
		tlv,
		any::<proptest::sample::Index>(),
		proptest::option::weighted(0.3, part()),
	)
		.prop_map(|(mut parts, sort, colour, operation, at, extra)| {
			parts.extend(sort);
			parts.extend(colour);
			let i = at.index(parts.len() + 1);
			parts.insert(i, operation);
			if let Some(e) = extra {
				let i = at.index(parts.len() + 1);
				parts.insert(i, e);
			}
			parts
		});
	prop_oneof![mixed.boxed(), valid.boxed()].prop_map(|parts| Line { parts }).boxed()
}
fn settings() -> BoxedStrategy<Settings> {
	let pairs = |list: &'static [(&'static str, &'static [&'static str])]| {
		(
			proptest::option::of(select(list[0].1.to_vec())),
			proptest::option::of(select(list[1].1.to_vec())),
			proptest::option::of(select(list[2].1.to_vec())),
		)
			.prop_map(move |(a, b, c)| {
				[a, b, c]
					.into_iter()
					.zip(list)
					.filter_map(|(v, (k, _))| v.map(|v| ((*k).to_owned(), v.to_owned())))
					.collect::<Vec<(String, String)>>()
			})
	};
	let wrong = |list: &'static [(&'static str, &'static [&'static str])]| {
		proptest::option::weighted(
			0.5,
			select(list.to_vec()).prop_flat_map(|(k, v)| (Just(k.to_owned()), select(v.to_vec()).prop_map(str::to_owned))),
		)
	};
	(
		(0..OPERATIONS.len(), any::<bool>(), any::<bool>()),
		pairs(RIGHT_ENV),
		wrong(WRONG_ENV),
		pairs(RIGHT_FILE),
		wrong(WRONG_FILE),
		prop_oneof![select(vec!["global", "default", "work"]).prop_map(str::to_owned), "[a-z]{1,6}"],
		vec(select(STRANGE.to_vec()), 0..3),
		(vec(("[a-z]{1,6}", wrong(WRONG_FILE)), 0..3), proptest::option::of(select(UNKNOWN.to_vec()))),
	)
		.prop_map(|((operation, in_file, named), mut env, wrong_env, mut file, wrong_file, table, strange, (mut others, unknown))| {
			others.sort();
			others.dedup_by(|a, b| a.0 == b.0);
			let others = others.into_iter().map(|(t, line)| (t, line.iter().map(|(k, v)| format!("{k} = {v}")).collect())).collect();
			let wrong = if in_file { &wrong_file } else { &wrong_env };
			let list = if in_file { &mut file } else { &mut env };
			if let Some((k, v)) = wrong {
				list.retain(|(n, _)| n != k);
				list.push((k.clone(), v.clone()));
			}
			let wrong = wrong.is_some();
			// A wrong value isn't hidden by a higher layer's
			if in_file {
				env.clear();
			}
			Settings {
				operation,
				env,
				table: in_file.then(|| (table, file.iter().map(|(k, v)| format!("{k} = {v}")).chain(unknown.iter().map(|u| (*u).to_owned())).collect())),
				named,
				wrong,
				strange: strange.into_iter().map(|(k, v)| (k.to_owned(), v.to_owned())).collect(),
				others,
			}
		})
		.boxed()
}
fn any_file() -> BoxedStrategy<File> {
	let line = prop_oneof![
		3 => select(vec![
			"[global]", "[default]", "[work]", "cli_colour = \"never\"", "masking_characters = [\"*\"]", "sort_parsed_tags = false",
			"cli_colour = 5", "x = [", "[global", "sort_parsed_tags = ", "= 3", "[[global]]", "global = 1", "global.sort_parsed_tags = true",
			"default = { sort_parsed_tags = true }", "cli_colour = { always = 1 }", "# comment", "[global.masking_characters]", "a.b.c = 1",
			"masking_characters = \"*\"", "\u{feff}", "\"\" = \"\"",
		])
		.prop_map(str::to_owned),
		1 => "[ -~]{0,20}",
		1 => "\\PC{0,8}",
	];
	(vec(line, 0..8), 0..OPERATIONS.len())
		.prop_map(|(lines, operation)| File { content: lines.join("\n"), operation })
		.boxed()
}

/// More and more masking characters, before and after the data.
fn many_masks() -> Vec<Line> {
	let mut cases = Vec::new();
	for n in (0..=40usize).chain([63, 64, 65, 94, 100, 127, 128, 129, 255, 256, 257, 1_000]) {
		for which in 0..3 {
			let masks = (0..n).map(|i| Part::Mask {
				value: char::from(0x21 + (i * 7 % 94) as u8),
				name:  i % 4,
			});
			let mut parts: Vec<Part> = masks.collect();
			let operation = Part::Operation { which, next: n % 2 == 0 };
			parts.insert(n * which / 2, operation);
			cases.push(Line { parts });
		}
	}
	cases
}

/// A value that's odd, but there.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Odd {
	operation: usize,
	value:     String,
	/// Attached, the next argument, or behind the one-letter name.
	form:      u8,
	masks:     Vec<char>,
}
fn check_odd(case: &Odd) -> Checked {
	let (name, _, is_tlv) = OPERATIONS[case.operation % OPERATIONS.len()];
	let short = SHORT.iter().find(|(_, i)| *i == case.operation).map(|(n, _)| *n);
	let v = &case.value;
	let mut args = match (case.form, short) {
		(0, _) => vec![format!("{name}={v}")],
		(1, _) if !v.starts_with('-') => vec![name.to_owned(), v.clone()],
		(2, Some(short)) if !v.starts_with('-') => vec![short.to_owned(), v.clone()],
		(3, Some(short)) if !v.starts_with(['-', '=']) => vec![format!("{short}{v}")],
		_ => return seen(false, "not written so"),
	};
	if is_tlv {
		args.extend(case.masks.iter().map(|m| format!("-m={m}")));
	}
	let inv = Inv::new(args);
	match answer(&inv)? {
		Answer::Breakdown(_) => seen(true, "odd value, breakdown"),
		Answer::Silent => seen(true, "odd value, silent"),
		Answer::Diagnostic(_) => {
			// About the data, not the command line: it ends like any other refusal of data
			let ends = |inv: &Inv| crate::exec::run(inv).map(|o| o.end).map_err(Failure::Infra);
			let malformed = Inv::new([format!("{name}=not data")]);
			if !matches!(answer(&malformed)?, Answer::Diagnostic(_)) {
				return seen(false, "odd value, any text is fine");
			}
			let (got, due) = (ends(&inv)?, ends(&malformed)?);
			if got != due {
				return Err(format!("a value that's there is refused as a fault of the command line ({got:?}, and {due:?} for data that's refused): {}", show(&inv)).into());
			}
			seen(true, "odd value, diagnostic")
		}
	}
}
const ODD: &[&str] = &[
	" ", "  ", "\t", "\n", "\r\n", " \n ", "\u{a0}", "\u{3000}", "\u{200b}", "\u{feff}", "\u{7f}", "\u{1b}", "=", "==", "=5A00", ",", ",,", "a,b", "5A00,5A00", ";", ".", "..",
	"?", "??", "*", "'", "\"", "\"\"", "''", "'5A00'", "\"5A00\"", "\\", "/", "/?", "/h", "-", "--", "-h", "-V", "-x", "-1", "-m", "--tvr", "--help", "--version", "---", "+", "+1", "@",
	"@x", "#", "$", "$x", "%", "%x%", "&", "(", ")", "[", "]", "[]", "{", "}", "{}", "<", ">", "<x>", "|", "~", "`", "^", "_", ":", "::", "!", "0", "00", "0x", "0x5A00", "x", "h",
	"help", "version", "\u{e9}", "true", "false", "auto", "always", "never", "null", "none", "nil", "NaN", "inf", "1e3", "-0", "0.0", "1,000", "1_000", "9999999999999999999999",
	"\u{1f4b3}", "\u{202e}", "e\u{301}", "\u{10ffff}", "T", "TLV", "stdin", "default",
];
fn odd_values() -> Vec<Odd> {
	let mut cases = Vec::new();
	for operation in 0..OPERATIONS.len() {
		for value in ODD {
			for form in 0..4 {
				cases.push(Odd {
					operation,
					value: (*value).to_owned(),
					form,
					masks: vec![],
				});
			}
		}
		// Every character, and every one as the masking character
		for c in (1u8..0x7F).map(char::from).chain("\u{80}\u{a0}\u{ad}\u{e9}\u{df}\u{130}\u{3a3}\u{200b}\u{2013}\u{202e}\u{2028}\u{3000}\u{feff}\u{ff10}\u{fffd}\u{1f4b3}\u{10ffff}".chars()) {
			for form in 0..4 {
				cases.push(Odd {
					operation,
					value: c.to_string(),
					form,
					masks: vec![c],
				});
			}
		}
	}
	cases
}

/// Words and notations that programs of other kinds accept for the settings.
fn words() -> Vec<String> {
	let mut all: Vec<String> = [
		"on", "off", "none", "yes", "no", "true", "false", "always", "ansi", "auto", "never", "default", "force", "plain", "dark", "light", "tty", "if-tty", "html", "color", "colour", "mono", "terminal", "automatic",
		"16m", "256", "truecolor", "enable", "enabled", "disable", "disabled", "0", "1", "2", "3", "-1", "y", "n", "t", "f", "maybe", "all", "any", "null", "nil", "inherit", "detect", "always-ansi", "alwaysansi", "always_ansi", "ansi256",
	]
	.map(str::to_owned)
	.into();
	all.extend(gen::dictionary().strings.iter().filter(|s| (1..16).contains(&s.len()) && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_')).cloned());
	let mut more = Vec::new();
	for w in &all {
		more.push(w.to_uppercase());
		let mut c = w.chars();
		more.extend(c.next().map(|first| first.to_uppercase().collect::<String>() + c.as_str()));
		more.push(format!("{w}s"));
	}
	all.extend(more);
	all.sort();
	all.dedup();
	all
}
const NOTATIONS: &[&str] = &[
	"U+002A", "u+2a", "U+2A", "\\x2a", "\\x2A", "\\u002A", "\\u{2a}", "\\u2A", "u002A", "0x2A", "0x2a", "x2A", "2Ah", "&#42;", "&#x2A;", "&ast;", "%2A", "\\*", "\\\\", "'*'", "\"*\"", "[*]", "['*']", "(*)", "*-#", "*..#", "1-9", "0-9", "a-z", "A-F", "\\d", "\\w", "\\s",
	"[0-9]", ".*", "**", "star", "asterisk", "space", "SPACE", "tab", "\\t", "\\n", "\\0", "^A", "^M", "hash", "none", "None", "any", "all", "digit", "digits", "hex", "42", "2A", "042", "*,", "*,#", "*;#", "*|#", "* #", "* ", " *", "**\t", "\u{e9}x", "e\u{301}", "\u{1f1e8}\u{1f1e6}", "\u{2a}\u{fe0f}", "*\u{20e3}", "\u{feff}*", "*\n", "\r\n",
	"x*", "ALL", "null", "@*", "@masks", "~*", "!*", "^*", "+*", "?*", "**?", "{*}", "<*>", "`*`", "*=", "*:", "X,x", "Xx", "XXXX", "####",
];
fn notations() -> Vec<Line> {
	let mut cases = Vec::new();
	let mut add = |option: &str, value: &str, n: usize| {
		let mut parts = vec![Part::Operation { which: n % 3, next: n % 2 == 0 }];
		parts.insert(n / 2 % 2, Part::BadValue { option: option.to_owned(), value: value.to_owned() });
		cases.push(Line { parts });
	};
	for (i, value) in NOTATIONS.iter().enumerate() {
		for (j, option) in MASK.iter().enumerate() {
			add(option, value, i + j);
		}
	}
	for (i, word) in words().iter().enumerate() {
		if word.chars().count() != 1 {
			add(MASK[i % 4], word, i);
		}
		if !["always", "ansi", "auto", "never"].contains(&&word[..]) {
			add(COLOUR[i % 2], word, i);
		}
		if !["true", "false"].contains(&&word[..]) {
			add(SORT[i % 2], word, i);
			add(NO_SORT[i % 2], word, i);
		}
	}
	cases
}
fn notated_settings() -> Vec<Settings> {
	let mut cases = Vec::new();
	let mut add = |key: &str, value: String, n: usize| {
		for file in [false, true] {
			cases.push(Settings {
				operation: n % OPERATIONS.len(),
				env: if file { vec![] } else { vec![(format!("PEMV_{}", key.to_uppercase()), value.clone())] },
				table: file.then(|| (["default", "global", "work"][n % 3].to_owned(), vec![format!("{key} = {value}")])),
				named: n % 2 == 0,
				wrong: true,
				strange: vec![],
				others: vec![],
			});
		}
	};
	// (both TOML and what variables are read as have such strings)
	let quoted = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\r', "\\r").replace('\t', "\\t"));
	for (i, value) in NOTATIONS.iter().enumerate() {
		add("masking_characters", format!("[{}]", quoted(value)), i);
		add("masking_characters", format!("[\"#\", {}]", quoted(value)), i);
		add("masking_characters", quoted(value), i);
	}
	for (i, word) in words().iter().enumerate() {
		if word.chars().count() != 1 {
			add("masking_characters", format!("[{}]", quoted(word)), i);
		}
		add("masking_characters", quoted(word), i);
		if !["always", "ansi", "auto", "never"].contains(&&word[..]) {
			add("cli_colour", quoted(word), i);
		}
		add("sort_parsed_tags", quoted(word), i);
	}
	cases
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("notations", true, &notations(), check_line);
	let places = ctx.scratch.clone();
	ctx.each("notated-settings", true, &notated_settings(), |case: &Settings| check_settings(&places, case));
	ctx.each("odd-values", true, &odd_values(), check_odd);
	ctx.each("many-masks", true, &many_masks(), check_line);
	let check_settings = |case: &Settings| check_settings(&ctx.scratch, case);
	let check_file = |case: &File| check_file(&ctx.scratch, case);
	ctx.each("every-stranger", true, &every_stranger(), check_line);
	ctx.each("every-pair", true, &every_pair(), check_line);
	ctx.each("every-setting", true, &every_setting(), check_settings);
	ctx.random("lines", 15_000, line, check_line);
	ctx.random("settings", 12_000, settings, check_settings);
	ctx.random("any-file", 4_000, any_file, check_file);
	ctx.finish(
		"Command lines: every pair of parsing options, each setting (every name and value form) with \
		 each of them, both sort options in every form, every option without its value or with an \
		 empty one, invalid values, and thousands of options and arguments that the program doesn't have (parts of \
		 names, names written otherwise, words) alone and in company; random mixtures of up to seven parts with and without faults; odd values (blanks, marks, words, single \
		 characters) of every option in every form. \
		 The environment and the file's tables: each of a list of right and wrong values of each \
		 setting with each option, with tables that aren't in use and keys that mean nothing beside them, mixtures, and files of any content (which have to be answered). \
		 With a fault: a diagnostic, no breakdown, no crash; without: a breakdown. Non-trivial: \
		 the command line, or the settings, has a determined verdict.",
		&[
			"a setting given twice that isn't a list, and no parsing option at all, aren't judged beyond not crashing",
			"a wrong value that a higher layer overrides isn't judged",
			"exit codes are judged only against each other: a fault of the command line ends like any other, and an odd value like other values of the same option that are refused as data",
		],
	)
}
