use std::{
	cell::RefCell,
	collections::BTreeMap,
	fs,
	path::{Path, PathBuf},
	sync::atomic::{AtomicUsize, Ordering},
};

use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};

use super::c22;
use crate::{
	common::*,
	display,
	engine::*,
	exec::{self, Inv, Out},
	gen,
	wire::{encode_block, encode_ingenico, hex, Rec},
};

/// A question, and the circumstances to ask it again under.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	args:  Vec<String>,
	/// Another order of the arguments.
	order: Vec<u16>,
	/// Variables that are no settings.
	env:   Vec<(String, String)>,
	/// Settings that don't concern the question.
	other: Vec<(String, String)>,
	place: u8,
	input: Option<String>,
	name:  Option<String>,
	/// Whether there's a file in the working directory with the name of the value.
	#[serde(default)]
	named: bool,
	/// Whether values are arguments of their own.
	#[serde(default)]
	apart: bool,
}
impl Case {
	fn given<'a>(&self, args: impl Iterator<Item = &'a String>) -> Vec<String> {
		args.flat_map(|a| match a.split_once('=') {
			Some((option, value)) if self.apart && !value.is_empty() && !value.starts_with('-') => {
				vec![option.to_owned(), value.to_owned()]
			}
			_ => vec![a.clone()],
		})
		.collect()
	}
}

/// The folders of a worker. Nothing in them is the configuration file.
struct Places {
	root:   PathBuf,
	before: BTreeMap<PathBuf, Vec<u8>>,
}
const PLACES: &[&str] = &["empty", "decoys", "decoys/deep/er/still", "home", "tmp"];
const DECOY: &str = "cli_colour = \"always\"\nmasking_characters = [\"1\", \"0\"]\nsort_parsed_tags = false\n";
const TABLES: &str = "[default]\ncli_colour = \"always\"\nmasking_characters = [\"1\", \"0\"]\nsort_parsed_tags = false\n";
const JSON: &str = "{\"default\": {\"cli_colour\": \"always\", \"sort_parsed_tags\": false}, \"sort_parsed_tags\": false}";
const VARIABLES: &str = "PEMV_CLI_COLOUR=always\nPEMV_SORT_PARSED_TAGS=false\n";

impl Places {
	fn new(scratch: &Path) -> Result<Self, String> {
		static NEXT: AtomicUsize = AtomicUsize::new(0);
		let root = scratch.join(format!("places-{}", NEXT.fetch_add(1, Ordering::SeqCst)));
		let mut places = Self {
			root,
			before: BTreeMap::new(),
		};
		places.fill().map_err(|e| e.to_string())?;
		Ok(places)
	}

	fn fill(&mut self) -> std::io::Result<()> {
		if self.root.exists() {
			fs::remove_dir_all(&self.root)?;
		}
		for p in PLACES {
			fs::create_dir_all(self.root.join(p))?;
		}
		let put = |name: &str, text: &str| {
			let path = self.root.join(name);
			fs::create_dir_all(path.parent().unwrap())?;
			fs::write(path, text)
		};
		for name in [
			".pemv.toml", "config.toml", "Pemv.toml", "PEMV.toml", "pemv.toml.bak", "pemv", "pemv.conf",
			"parseemv.toml", "ParseEMV.toml", "config/pemv.toml", ".config/pemv.toml",
		] {
			put(&format!("decoys/{name}"), TABLES)?;
		}
		put("decoys/.pemvrc", DECOY)?;
		put("decoys/pemv.json", JSON)?;
		put("decoys/.env", VARIABLES)?;
		put("decoys/deep/.env", VARIABLES)?;
		put("decoys/deep/er/still/.env", VARIABLES)?;
		for name in [
			"pemv.toml", ".pemv.toml", ".config/pemv.toml", ".config/pemv/pemv.toml", ".config/pemv/config.toml",
			"pemv/pemv.toml", "pemv/config.toml", ".local/share/pemv/pemv.toml",
		] {
			put(&format!("elsewhere/{name}"), TABLES)?;
		}
		self.before = listing(&self.root)?;
		Ok(())
	}

	/// What's different since.
	fn changed(&mut self) -> Result<Option<String>, String> {
		let now = listing(&self.root).map_err(|e| e.to_string())?;
		if now == self.before {
			return Ok(None);
		}
		let what = now
			.iter()
			.find(|(p, c)| self.before.get(*p) != Some(*c))
			.map(|(p, _)| p)
			.or_else(|| self.before.keys().find(|p| !now.contains_key(*p)))
			.map_or_else(String::new, |p| p.display().to_string());
		self.fill().map_err(|e| e.to_string())?;
		Ok(Some(what))
	}
}
fn listing(root: &Path) -> std::io::Result<BTreeMap<PathBuf, Vec<u8>>> {
	let mut all = BTreeMap::new();
	let mut dirs = vec![root.to_owned()];
	while let Some(dir) = dirs.pop() {
		for entry in fs::read_dir(&dir)? {
			let path = entry?.path();
			let name = path.strip_prefix(root).unwrap_or(&path).to_owned();
			if path.is_dir() {
				all.insert(name, Vec::new());
				dirs.push(path);
			} else {
				all.insert(name, fs::read(&path)?);
			}
		}
	}
	Ok(all)
}
thread_local! {
	static HERE: RefCell<Option<Places>> = const { RefCell::new(None) };
}

fn same(a: &Out, b: &Out) -> Result<(), String> {
	let brief = |x: &[u8], y: &[u8]| {
		let at = x.iter().zip(y).take_while(|(p, q)| p == q).count();
		let from = x[..at].iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
		(
			crate::display::clip(&text(&x[from..]), 120),
			crate::display::clip(&text(&y[from.min(y.len())..]), 120),
		)
	};
	if a.stdout != b.stdout {
		let (x, y) = brief(&a.stdout, &b.stdout);
		return Err(format!("{x:?} on standard output becomes {y:?}"));
	}
	if a.stderr != b.stderr {
		let (x, y) = brief(&a.stderr, &b.stderr);
		return Err(format!("{x:?} on standard error becomes {y:?}"));
	}
	if a.end != b.end {
		return Err(format!("{:?} becomes {:?}", a.end, b.end));
	}
	Ok(())
}
fn check(scratch: &Path, case: &Case) -> Checked {
	if case.args.iter().any(|a| !fits(a)) {
		return seen(false, "too long");
	}
	HERE.with(|cell| {
		let mut slot = cell.borrow_mut();
		if slot.is_none() {
			*slot = Some(Places::new(scratch).map_err(Failure::Infra)?);
		}
		let places = slot.as_mut().unwrap();
		let mut plain = Inv::new(case.given(case.args.iter()));
		plain.cwd = Some(places.root.join("empty"));
		let first = exec::run(&plain).map_err(Failure::Infra)?;
		classify(&first).map_err(|e| Failure::from(format!("{e}: {}", show(&plain))))?;
		let again = exec::run(&plain).map_err(Failure::Infra)?;
		let changed = places.changed().map_err(Failure::Infra)?;
		if let Some(what) = changed {
			return Err(format!("a run changes the file {what}: {}", show(&plain)).into());
		}
		same(&first, &again).map_err(|e| Failure::from(format!("asked twice, {e}: {}", show(&plain))))?;

		let mut order: Vec<usize> = (0..case.args.len()).collect();
		order.sort_by_key(|i| case.order.get(*i).copied().unwrap_or(0));
		let mut inv = Inv::new(case.given(order.iter().map(|i| &case.args[*i])));
		let root = places.root.display().to_string();
		inv.env = case
			.env
			.iter()
			.map(|(k, v)| (k.clone(), v.replace("{root}", &root)))
			.chain(case.other.iter().cloned())
			.collect();
		let place = PLACES[case.place as usize % PLACES.len()];
		inv.cwd = Some(places.root.join(place));
		let mut decoys = Vec::new();
		if case.named {
			for name in case.args.iter().filter_map(|a| a.split_once('=')).flat_map(|(_, v)| file_names(v)) {
				let path = inv.cwd.as_ref().unwrap().join(name);
				// (not those that are there, or are the configuration file)
				if name != "pemv.toml" && !path.exists() && fs::write(&path, NAMED).is_ok() {
					decoys.push(path);
				}
			}
		}
		let then = exec::run_reading(&inv, case.input.as_deref().map(str::as_bytes), case.name.as_deref())
			.map_err(Failure::Infra)?;
		let kept = decoys.iter().all(|p| fs::read(p).is_ok_and(|c| c == NAMED.as_bytes()));
		decoys.iter().for_each(|p| drop(fs::remove_file(p)));
		let changed = places.changed().map_err(Failure::Infra)?;
		if !kept {
			return Err(format!("a run changes a file with the name of a value, in {place}: {}", show(&inv)).into());
		}
		if let Some(what) = changed {
			return Err(format!("a run changes the file {what}, in {place}: {}", show(&inv)).into());
		}
		same(&first, &then).map_err(|e| {
			Failure::from(format!(
				"{e}, in {place}, reading {:?}, called {:?}: {}",
				case.input,
				case.name,
				show(&inv)
			))
		})?;
		seen(
			true,
			if first.stdout.is_empty() {
				"diagnostic"
			} else if case.other.is_empty() {
				"breakdown"
			} else {
				"breakdown, with settings for others"
			},
		)
	})
}

/// What files named like values hold.
const NAMED: &str = "9F0206000000000100\n";
/// Names a value could be taken for.
fn file_names(value: &str) -> Vec<&str> {
	let bare = value.trim_start_matches(|c: char| !c.is_alphanumeric());
	let mut names = vec![value, value.trim(), bare];
	names.extend(value.get(1..));
	names.retain(|n| !n.is_empty() && n.len() < 200 && !n.contains(['/', '\0']) && *n != "." && *n != "..");
	names.sort_unstable();
	names.dedup();
	names
}

const NAMES: &[&str] = &[
	"-", "--", "@-", ".", "?", "*", "/dev/stdin", "/dev/fd/0", "pemv.conf", "@pemv.conf", "@.pemv.toml", "config.toml", "./pemv.json",
	"$HOME", "$TVR", "~", "@", "stdin", "%",
];
const SETTINGS: &[&str] = &["CONFIG", "PROFILE", "CLI_COLOUR", "MASKING_CHARACTERS", "SORT_PARSED_TAGS"];
fn usable(name: &str) -> bool {
	let upper = name.to_uppercase();
	!name.is_empty()
		&& name.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_')
		&& upper != "PEMV_"
		&& !SETTINGS.iter().any(|s| upper == format!("PEMV_{s}"))
}
/// Names of variables that aren't the program's business.
fn names() -> Vec<String> {
	let mut all: Vec<String> = [
		"HOME", "USER", "PATH", "SHELL", "PWD", "OLDPWD", "LANG", "LANGUAGE", "LC_ALL", "LC_CTYPE", "LC_COLLATE",
		"TZ", "TERM", "COLORTERM", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR", "COLUMNS", "LINES",
		"EDITOR", "PAGER", "TMPDIR", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "XDG_DATA_HOME", "XDG_CONFIG_DIRS",
		"DEBUG", "VERBOSE", "QUIET", "CI", "POSIXLY_CORRECT", "RUST_BACKTRACE", "RUST_LOG", "TVR", "EMV", "PEMV",
		"CONFIG", "PROFILE", "CLI_COLOUR", "SORT_PARSED_TAGS", "MASKING_CHARACTERS", "PEMV_SORT", "PEMV_NO_SORT",
		"PEMV_NO_SORT_PARSED_TAGS", "PEMV_COLOUR", "PEMV_COLOR", "PEMV_CLI_COLOR", "PEMV_MASKING_CHARACTER",
		"PEMV_MASKING", "PEMV_MASK", "PEMV_SORT_TAGS", "PEMV_DEBUG", "PEMV_FORMAT", "PEMV_TLV", "PEMV_HOME",
		"PEMV_FILE", "PEMV_OPTIONS", "PEMV_ARGS", "ROCKET_PROFILE", "FIGMENT_PROFILE", "XPEMV_SORT_PARSED_TAGS",
		"PEMVSORT_PARSED_TAGS", "SOURCE_DATE_EPOCH", "HOSTNAME", "PEMV_RAW", "PEMV_ASCII", "PEMV_DEPTH",
	]
	.map(str::to_owned)
	.into();
	for s in &gen::dictionary().strings {
		all.push(s.clone());
		let upper = s.to_uppercase().replace(['-', ' ', '.'], "_");
		all.push(format!("PEMV_{upper}"));
		all.push(upper);
	}
	all.retain(|n| usable(n));
	all.sort();
	all.dedup();
	all
}
/// Well-known variables, and what they're often set to.
const TELLING: &[(&[&str], &[&str])] = &[
	(
		&["LANG", "LC_ALL", "LC_CTYPE", "LC_MESSAGES", "LC_NUMERIC", "LANGUAGE"],
		&["C", "POSIX", "C.UTF-8", "en_US.UTF-8", "en_US.ISO-8859-1", "fr_CA.UTF-8", "de_DE@euro", "ja_JP.eucJP", "tr_TR.UTF-8", "ar_EG.UTF-8"],
	),
	(&["TERM"], &["dumb", "linux", "vt100", "xterm", "xterm-256color", "screen", "unknown", "cygwin", "emacs"]),
	(&["COLORTERM", "TERM_PROGRAM"], &["truecolor", "24bit", "gnome-terminal", "vscode", "iTerm.app", "Apple_Terminal"]),
	(&["COLUMNS", "LINES"], &["1", "20", "40", "72", "80", "132", "1000", "0", "-1", "x"]),
	(&["TZ"], &["UTC", "America/Toronto", "Asia/Kathmandu"]),
	(&["NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR"], &["0", "1", "2", "3", "true"]),
	(&["RUST_BACKTRACE", "RUST_LOG", "DEBUG", "VERBOSE"], &["0", "1", "full", "trace", "*", "pemv"]),
	(&["USER", "LOGNAME", "SUDO_USER", "USERNAME"], &["root", "nobody", "zedseven"]),
	(&["CI", "GITHUB_ACTIONS", "TRAVIS"], &["true", "1"]),
	(&["MSYSTEM", "WT_SESSION", "ANSICON", "ConEmuANSI", "WSL_DISTRO_NAME"], &["ON", "MINGW64", "1"]),
	(&["PAGER", "EDITOR", "BROWSER", "SHELL"], &["less", "cat", "vi", "/bin/false", "/bin/sh"]),
];

fn contents() -> BoxedStrategy<String> {
	prop_oneof![
		6 => select(
			[
				"", "0", "1", "2", "true", "false", "yes", "never", "always", "ansi", "auto", "40", "80", "dumb",
				"xterm-256color", "C", "en_CA.UTF-8", "fr_FR.ISO-8859-1", "full", "debug", "*", "['1','0']", "[1]",
				"UTC", "{root}/elsewhere", "{root}/elsewhere", "{root}/tmp", "{root}/home", "{root}/elsewhere/pemv.toml",
				"default", "global", "--no-sort", "{a=1}",
			]
			.map(str::to_owned)
			.to_vec()
		),
		1 => "[ -~]{0,8}",
	]
	.boxed()
}
fn strangers() -> BoxedStrategy<Vec<(String, String)>> {
	let telling: Vec<(String, String)> = TELLING
		.iter()
		.flat_map(|(names, values)| names.iter().flat_map(|n| values.iter().map(|v| ((*n).to_owned(), (*v).to_owned()))))
		.collect();
	vec(prop_oneof![3 => (select(names()), contents()), 1 => select(telling)], 0..6)
		.prop_map(|mut v| {
			v.sort();
			v.dedup_by(|a, b| a.0 == b.0);
			v.retain(|(n, _)| usable(n));
			v
		})
		.boxed()
}
fn input() -> BoxedStrategy<Option<String>> {
	prop_oneof![
		1 => Just(None),
		3 => select(vec![
			"9F0206000000000100", "T9F02:06:h000000000100", "y\n", "\n", "--no-sort\n", "201", "{}", "*",
		])
		.prop_map(|s| Some(s.to_owned())),
	]
	.boxed()
}
const SORTED: &[&str] = &["--sort", "--sort=true", "--sort-parsed-tags", "--sort-parsed-tags=true", "--no-sort=false", "--no-sort-parsed-tags=false"];
const UNSORTED: &[&str] = &["--no-sort", "--no-sort=true", "--no-sort-parsed-tags", "--sort=false", "--sort-parsed-tags=false", "--no-sort-parsed-tags=true"];
fn args(case: &c22::Case, spelt: u8) -> Vec<String> {
	let mut args = Vec::new();
	let spelt = spelt as usize;
	if case.option.ends_with("tlv") {
		args.extend(case.masks.iter().map(|m| format!("--masking-character={m}")));
		if !case.sort {
			args.push(UNSORTED[spelt % UNSORTED.len()].to_owned());
		} else if spelt % 2 == 0 {
			args.push(SORTED[spelt / 2 % SORTED.len()].to_owned());
		}
	}
	if !case.env.is_empty() {
		args.push(format!("--{}={}", if spelt / 16 % 2 == 0 { "colour" } else { "color" }, if case.ansi { "ansi" } else { "never" }));
	}
	args.push(format!("--{}={}", case.option, case.data));
	args
}
fn case() -> BoxedStrategy<Case> {
	// Values without digits, that could be taken for the name of something to read
	let name_like = (c22::case(), select(NAMES.to_vec())).prop_map(|(c, name)| c22::Case {
		data: name.to_owned(),
		..c
	});
	// Objects that show what's in effect
	let telling = (c22::case(), gen::telling_objs(), 0..4u8).prop_map(|(c, objs, form)| {
		let (option, data) = if form < 2 {
			("ber-tlv", hex(&encode_block(&objs)))
		} else {
			let recs: Vec<Rec> = objs
				.iter()
				.map(|o| Rec {
					kind: 'T',
					tag: o.tag.clone(),
					len_bytes: 0,
					ascii: o.value().iter().all(|b| (0x20..0x7F).contains(b)),
					value: o.value().into(),
					lower_case: 0,
					separator: ',',
				})
				.collect();
			("ingenico-tlv", encode_ingenico(&recs, false))
		};
		c22::Case {
			option: if form % 2 == 0 { option } else { "auto-tlv" }.to_owned(),
			data,
			..c
		}
	});
	let question = prop_oneof![
		4 => telling,
		9 => c22::case().prop_filter("an empty value", |c| !c.data.is_empty()),
		1 => name_like,
	];
	let other = (
		proptest::option::of(select(vec!["true", "false"])),
		proptest::option::of(select(vec!["['0','1']", "[\"*\"]", "[]", "['F']", "['A', 'x', '9']"])),
	);
	let name = prop_oneof![
		3 => Just(None),
		1 => select(vec!["/usr/bin/pemv", "tvr", "ber-tlv", "x", "pemv.exe", "emv-tlv"]).prop_map(|s| Some(s.to_owned())),
	];
	// Marks in front of a value, that could make it the name of something to read
	let mark = prop_oneof![
		5 => Just(""),
		2 => select(vec!["@", "%", "<", "+", "=", "./", "&", "~", "$", "#", "-", "!", ":", "file:", "0x", "@@"]),
	];
	let question = (question, mark).prop_map(|(mut q, mark)| {
		q.data.insert_str(0, mark);
		q
	});
	((question, any::<u8>()), vec(any::<u16>(), 0..6), strangers(), other, (any::<u8>(), prop::bool::weighted(0.4), any::<bool>()), input(), name)
		.prop_map(|((question, spelt), order, env, (sort, masks), (place, named, apart), input, name)| {
			let mut other = Vec::new();
			if !question.option.ends_with("tlv") {
				other.extend(sort.map(|s| ("PEMV_SORT_PARSED_TAGS".to_owned(), s.to_owned())));
				other.extend(masks.map(|m| ("PEMV_MASKING_CHARACTERS".to_owned(), m.to_owned())));
			}
			Case {
				args: args(&question, spelt),
				order,
				env,
				other,
				place,
				input,
				name,
				named,
				apart,
			}
		})
		.boxed()
}

/// A question of each kind, in each place, with each stranger.
fn every_circumstance() -> Vec<Case> {
	let block = "9F1A020840E1099F01010150033030305F2A0231319A0300000057020000";
	let questions: Vec<Vec<String>> = [
		vec![format!("--ber-tlv={block}")],
		vec![format!("--auto={block}")],
		vec!["--ingenico-tlv=T9F1A:02:h0840,T5F2A:02:h1111,T5A:03:h000000".to_owned()],
		vec!["--tvr=8000048000".to_owned()],
		vec!["--tsi=E800".to_owned()],
		vec!["--tsi=E8".to_owned()],
		vec!["--service-code=201".to_owned()],
		vec!["--identify=9F1A".to_owned()],
		vec!["--cvm-list=00000000000000005E031F00".to_owned()],
		vec!["--cvm-results=5E0301".to_owned()],
		vec!["--colour=always".to_owned(), "--ccd-iad=0FA501A003A40000010203040506070 80F000102030405060708090A0B0C0D0E".to_owned()],
	]
	.into();
	let mut cases = Vec::new();
	for (i, q) in questions.iter().enumerate() {
		let plain = Case {
			args:  q.clone(),
			order: vec![],
			env:   vec![],
			other: vec![],
			place: 0,
			input: None,
			name:  None,
			named: false,
			apart: false,
		};
		let (option, value) = q.last().unwrap().split_once('=').unwrap_or_default();
		for (j, mark) in ["", "@", "%", "<", "+", "&", "file:", "-", "~", "$", " "].iter().enumerate() {
			cases.push(Case {
				args: vec![format!("{option}={mark}{value}")],
				place: (j % 4) as u8,
				named: true,
				..plain.clone()
			});
			let mut apart = cases.last().unwrap().clone();
			apart.apart = true;
			cases.push(apart);
		}
		for (names, values) in TELLING {
			for name in *names {
				for value in *values {
					cases.push(Case {
						env: vec![((*name).to_owned(), (*value).to_owned())],
						..plain.clone()
					});
				}
			}
		}
		if let Some((option, _)) = q.last().unwrap().split_once('=') {
			for (j, name) in NAMES.iter().enumerate() {
				cases.push(Case {
					args: vec![format!("{option}={name}")],
					env: vec![("TVR".to_owned(), "8000048000".to_owned())],
					place: (1 + j % 4) as u8,
					input: Some("9F0206000000000100".to_owned()),
					apart: j % 2 == 0,
					..plain.clone()
				});
			}
		}
		for place in 0..PLACES.len() as u8 {
			for input in [None, Some("9F0206000000000100"), Some("\n")] {
				for name in [None, Some("emv")] {
					cases.push(Case {
						place,
						input: input.map(str::to_owned),
						name: name.map(str::to_owned),
						..plain.clone()
					});
				}
			}
		}
		// What the source text mentions, as what the variables say
		if matches!(i, 0 | 10) {
			let known = ["TERM", "TERM_PROGRAM", "COLORTERM", "LANG", "LC_ALL", "CI", "COLUMNS", "SHELL", "USER", "HOSTNAME", "TZ", "MODE", "ENV", "DEBUG", "PAGER"].map(str::to_owned);
			let mentioned = gen::dictionary().strings.iter().filter(|s| s.len() > 1 && s.chars().all(|c| c.is_ascii_uppercase() || c == '_'));
			for name in known.iter().chain(mentioned).filter(|n| usable(n)) {
				for value in gen::dictionary().strings.iter().filter(|s| (1..20).contains(&s.len()) && !s.contains(['\0', ' '])) {
					cases.push(Case {
						env: vec![(name.clone(), value.clone())],
						..plain.clone()
					});
				}
			}
		}
		for name in names() {
			for value in ["1", "false", "{root}/elsewhere", "always"] {
				if i > 3 && value != "1" && value != "{root}/elsewhere" {
					continue;
				}
				cases.push(Case {
					env: vec![(name.clone(), value.to_owned())],
					place: (cases.len() % PLACES.len()) as u8,
					..plain.clone()
				});
			}
		}
	}
	cases
}

/// The same question on terminals and in no directory.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Console {
	args: Vec<String>,
	/// Which of standard input, output and error are terminals.
	bits: u8,
	env:  Vec<(String, String)>,
	/// Rows and columns.
	#[serde(default)]
	size: Option<(u16, u16)>,
}
fn check_console(scratch: &Path, case: &Console) -> Checked {
	static NEXT: AtomicUsize = AtomicUsize::new(0);
	if case.args.iter().any(|a| !fits(a)) {
		return seen(false, "too long");
	}
	let mut inv = Inv::new(case.args.clone());
	inv.env.clone_from(&case.env);
	let plain = exec::run(&inv).map_err(Failure::Infra)?;
	classify(&plain).map_err(|e| Failure::from(format!("{e}: {}", show(&inv))))?;
	if case.bits & 7 == 0 {
		let dir = scratch.join(format!("gone-{}", NEXT.fetch_add(1, Ordering::SeqCst)));
		let out = exec::run_homeless(&inv, &dir).map_err(Failure::Infra)?;
		same(&plain, &out).map_err(|e| Failure::from(format!("{e}, in a directory that's gone: {}", show(&inv))))?;
		return seen(true, "in no directory");
	}
	let [i, o, e] = [1, 2, 4].map(|b| case.bits & b != 0);
	let (out, err) = c22::on_sized_terminals(&inv, i, o, e, case.size).map_err(Failure::Infra)?;
	let (out, err) = (display::plain(&out), display::plain(&err));
	let want = (display::plain(&text(&plain.stdout)), display::plain(&text(&plain.stderr)));
	let agree = if e { format!("{out}{err}") == format!("{}{}", want.0, want.1) } else { (&out, &err) == (&want.0, &want.1) };
	if !agree {
		let clip = |s: &str| crate::display::clip(s.trim(), 160);
		return Err(format!(
			"with terminals for standard input ({i}), output ({o}) and error ({e}), {:?} and {:?} become {:?} and {:?}: {}",
			clip(&want.0),
			clip(&want.1),
			clip(&out),
			clip(&err),
			show(&inv)
		)
		.into());
	}
	seen(true, "on terminals")
}
fn consoles() -> Vec<Console> {
	let mut cases = Vec::new();
	for question in [
		"--ber-tlv=9F1A020840E1099F01010150033030305F2A0231319A0300000057020000", "--auto=5A0112", "--auto=x", "--ingenico-tlv=T9F1A:02:h0840", "--ingenico-tlv=T",
		"--ber-tlv=5A", "--ber-tlv=9A04", "--tvr=8000048000", "--tvr=80", "--tsi=E800", "--tsi=E8", "--service-code=201", "--service-code=20x", "--identify=9F1A",
		"--identify=x", "--cvm-list=00000000000000005E031F00", "--cvm-list=00", "--cvm-results=5E0301", "--cvm-results=5E",
		"--ccd-iad=0FA501A003A40000010203040506070 80F000102030405060708090A0B0C0D0E", "--ccd-iad=00", "--ccd-cvr=A003A40000", "--ccd-cvr=A0", "--ber-tlv=95020000",
	] {
		for bits in 0..8 {
			for (i, term) in [None, Some("xterm-256color"), Some("dumb")].into_iter().enumerate() {
				cases.push(Console {
					args: vec![["--colour=never", "--colour=never", "--colour=auto"][i].to_owned(), question.to_owned()],
					bits,
					env: term.map(|t| ("TERM".to_owned(), t.to_owned())).into_iter().collect(),
					size: None,
				});
			}
		}
		for (i, columns) in [1u16, 2, 20, 39, 40, 41, 60, 72, 79, 80, 81, 99, 100, 101, 119, 120, 121, 131, 132, 133, 160, 200, 256, 400, 1000, 65535].into_iter().enumerate() {
			for rows in [2u16, 24, 50, 200] {
				if !question.contains("9F1A") && (i + rows as usize) % 5 != 0 {
					continue;
				}
				cases.push(Console {
					args: vec!["--colour=never".to_owned(), question.to_owned()],
					bits: [7, 2, 6, 3][(i + rows as usize / 2) % 4],
					env: match i % 3 {
						0 => vec![],
						1 => vec![("TERM".to_owned(), "xterm-256color".to_owned())],
						_ => vec![("COLUMNS".to_owned(), columns.to_string()), ("LINES".to_owned(), rows.to_string())],
					},
					size: Some((rows, columns)),
				});
			}
		}
	}
	cases
}

/// The same question with standard input, output and error of every kind.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Streams {
	args:   Vec<String>,
	input:  String,
	output: String,
	error:  String,
}
fn check_streams(scratch: &Path, case: &Streams) -> Checked {
	if case.args.iter().any(|a| !fits(a)) {
		return seen(false, "too long");
	}
	let inv = Inv::new(case.args.clone());
	let plain = exec::run(&inv).map_err(Failure::Infra)?;
	classify(&plain).map_err(|e| Failure::from(format!("{e}: {}", show(&inv))))?;
	let mut want = plain;
	if case.error == "same" {
		want.stdout.append(&mut want.stderr);
	}
	let out = exec::run_between(&inv, scratch, &case.input, &case.output, &case.error).map_err(Failure::Infra)?;
	same(&want, &out).map_err(|e| {
		Failure::from(format!(
			"{e}, with standard input ({}), output ({}) and error ({}): {}",
			case.input,
			case.output,
			case.error,
			show(&inv)
		))
	})?;
	seen(true, "streams")
}
fn streams() -> Vec<Streams> {
	let mut cases = Vec::new();
	let questions: Vec<Vec<String>> = consoles()
		.into_iter()
		.filter(|c| c.bits == 0 && c.env.is_empty())
		.flat_map(|c| {
			["never", "always", "ansi", "auto"].map(|colour| vec![format!("--colour={colour}"), c.args[1].clone()])
		})
		.chain([vec![], vec!["--help".to_owned()], vec!["--version".to_owned()], vec!["--no".to_owned()], vec!["--tvr=1".to_owned(), "--tsi=1".to_owned()]])
		.collect();
	for (i, args) in questions.iter().enumerate() {
		let all = exec::INPUTS
			.iter()
			.map(|input| (*input, "memory", "memory"))
			.chain(exec::OUTPUTS.iter().flat_map(|output| exec::OUTPUTS.iter().chain(&["same"]).map(move |error| ("null", *output, *error))))
			.chain((0..exec::INPUTS.len()).map(|k| (exec::INPUTS[k], exec::OUTPUTS[(k + i) % exec::OUTPUTS.len()], exec::OUTPUTS[(k + i / 7) % exec::OUTPUTS.len()])));
		for (input, output, error) in all {
			cases.push(Streams {
				args:   args.clone(),
				input:  input.to_owned(),
				output: output.to_owned(),
				error:  error.to_owned(),
			});
		}
	}
	cases
}

/// A question asked where there are files of all the names the program knows.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Files {
	args:  Vec<String>,
	kind:  usize,
	/// Whether it's the home directory as well.
	home:  bool,
	names: Vec<String>,
}
/// The names of files in the text of the source, and likely ones.
fn known_names() -> Vec<String> {
	let mut all: Vec<String> = gen::dictionary().strings.clone();
	for stem in ["tags", "names", "tag_names", "masks", "config", "pemv", ".pemv", "settings", "currencies", "countries", "local", "custom", "profile", "options"] {
		for end in ["", ".txt", ".toml", ".json", ".csv", ".conf", ".cfg", ".ini", ".yaml", "rc"] {
			all.push(format!("{stem}{end}"));
		}
	}
	all.retain_mut(|n| {
		*n = n.trim_start_matches("~/").trim_matches('/').to_owned();
		!n.is_empty()
			&& n.len() < 100
			&& n.split('/').all(|p| !p.is_empty() && p != "." && p != ".." && p != "pemv.toml")
			&& !n.chars().any(|c| c.is_control() || "{}<>\"".contains(c))
	});
	all.sort();
	all.dedup();
	all
}
const TAGS: &[&str] = &["DF01", "C1", "9F5A", "5A", "50", "9F1A", "95", "E1", "57"];
fn file_contents(kind: usize) -> Option<String> {
	let line = |f: &dyn Fn(&str) -> String| TAGS.iter().map(|t| f(t) + "\n").collect::<String>();
	let separators = [" ", "=", " = ", ":", ": ", ",", "\t", ";", "|", ", "];
	Some(match kind {
		0..=9 => line(&|t| format!("{t}{}Something", separators[kind])),
		10..=19 => line(&|t| format!("0x{}{}\"Something\"", t.to_lowercase(), separators[kind - 10])),
		20 => line(&|t| format!("\"{t}\" = \"Something\"")),
		21 => format!("[tags]\n{}", line(&|t| format!("\"{t}\" = \"Something\""))),
		22 => format!("{{{}}}", TAGS.map_join(|t| format!("\"{t}\": \"Something\""))),
		23 => format!("[{}]", TAGS.map_join(|t| format!("{{\"tag\": \"{t}\", \"name\": \"Something\"}}"))),
		24 => line(&|t| t.to_owned()),
		25 => line(&str::to_lowercase),
		26 => TAGS.join(","),
		27 => "9F0206000000000100".to_owned(),
		28 => String::new(),
		29 => "1".to_owned(),
		30 => "*#0123456789\n".to_owned(),
		31 => DECOY.to_owned(),
		32 => TABLES.to_owned(),
		33 => JSON.to_owned(),
		34 => VARIABLES.to_owned(),
		35 => "--no-sort\n--colour=always\n-m 0\n".to_owned(),
		36 => line(&|t| format!("T{t}:01:h41")),
		37 => line(&|t| format!("{t}=")),
		38 => "840 USD 2\n0840,US Dollar,2\nUS=840\nfr\nen\n".to_owned(),
		_ => return None,
	})
}
trait MapJoin {
	fn map_join(&self, f: impl Fn(&str) -> String) -> String;
}
impl MapJoin for [&str] {
	fn map_join(&self, f: impl Fn(&str) -> String) -> String {
		self.iter().map(|t| f(t)).collect::<Vec<_>>().join(", ")
	}
}
fn check_files(scratch: &Path, case: &Files) -> Checked {
	static NEXT: AtomicUsize = AtomicUsize::new(0);
	let root = scratch.join(format!("files-{}", NEXT.fetch_add(1, Ordering::SeqCst)));
	let (empty, full) = (root.join("empty"), root.join("full"));
	let ready = (|| {
		fs::create_dir_all(&empty)?;
		fs::create_dir_all(&full)?;
		let contents = file_contents(case.kind).unwrap_or_default();
		for name in &case.names {
			let path = full.join(name);
			// (some are names of directories others are in)
			if fs::create_dir_all(path.parent().unwrap()).is_ok() {
				drop(fs::write(&path, &contents));
			}
		}
		listing(&full)
	})();
	let before = ready.map_err(|e: std::io::Error| Failure::Infra(e.to_string()))?;
	let mut plain = Inv::new(case.args.iter().cloned());
	plain.cwd = Some(empty.clone());
	let mut inv = plain.clone();
	inv.cwd = Some(full.clone());
	for variable in ["HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_CACHE_HOME", "XDG_CONFIG_DIRS", "TMPDIR"] {
		plain.env.push((variable.to_owned(), empty.display().to_string()));
		inv.env.push((variable.to_owned(), if case.home { full.display() } else { empty.display() }.to_string()));
	}
	let first = exec::run(&plain).map_err(Failure::Infra);
	let then = exec::run(&inv).map_err(Failure::Infra);
	let after = listing(&full).map_err(|e| Failure::Infra(e.to_string()));
	fs::remove_dir_all(&root).map_err(|e| Failure::Infra(e.to_string()))?;
	let (first, then, after) = (first?, then?, after?);
	classify(&first).map_err(|e| Failure::from(format!("{e}: {}", show(&plain))))?;
	if before != after {
		return Err(format!("a run changes a file: {}", show(&inv)).into());
	}
	same(&first, &then).map_err(|e| Failure::from(format!("{e}, among files of other names: {}", show(&inv))))?;
	seen_n(true, if first.stdout.is_empty() { "diagnostic" } else { "breakdown" }, case.names.len())
}
fn files() -> Vec<Files> {
	let questions: &[&[&str]] = &[
		&["--ber-tlv=DF010141C100E105DF01024142"],
		&["--ber-tlv=5A0312345FC1022A2A9505800004800057023030", "--colour=always"],
		&["--ber-tlv=9F5A01415F2A0208409F1A020840500141", "--no-sort"],
		&["--ber-tlv=DF01024142DF0102"],
		&["--auto-tlv=T50:01:h41,TDF01:01:h31,C9F5A:01:h31"],
		&["--auto-tlv=DF010131C10130"],
		&["--ingenico-tlv=TC1:01:h41,T5A:03:hABCDEF", "--masking-character=*"],
		&["--identify=DF01"],
		&["--identify=9F1A"],
		&["--tvr=8000048000"],
		&["--tsi=E800"],
		&["--service-code=201"],
		&["--cvm-list=000003E8000000005E031F00"],
		&["--cvm-results=5E0301"],
		&["--ccd-cvr=A440000102"],
		&["--ccd-iad=0FA501A440000102010203040506070F010203040506070809A0B0C0D0E0F010"],
		&["--tsi=E8"],
	];
	let names = known_names();
	let mut cases = Vec::new();
	for kind in (0..).take_while(|k| file_contents(*k).is_some()) {
		for (i, q) in questions.iter().enumerate() {
			for home in [false, true] {
				// (contents with tags in them are for what has tags)
				if i >= 7 && (kind + i) % 4 != 0 {
					continue;
				}
				cases.push(Files {
					args: q.iter().map(|a| (*a).to_owned()).collect(),
					kind,
					home,
					names: names.clone(),
				});
			}
		}
	}
	cases
}

/// A question asked at another time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Timed {
	args: Vec<String>,
	/// In seconds since 1970.
	time: i64,
	zone: String,
}
/// (harness/clock.c, which is linked into the program, makes the variable count)
fn check_time(case: &Timed) -> Checked {
	if case.args.iter().any(|a| !fits(a)) {
		return seen(false, "too long");
	}
	let inv = Inv::new(case.args.clone());
	let first = exec::run(&inv).map_err(Failure::Infra)?;
	let mut later = inv.clone();
	later.env = vec![
		("VERIF_NOW".to_owned(), case.time.to_string()),
		("TZ".to_owned(), case.zone.clone()),
	];
	let then = exec::run(&later).map_err(Failure::Infra)?;
	same(&first, &then).map_err(|e| {
		Failure::from(format!("{e}, {} seconds after 1970 in {}: {}", case.time, case.zone, show(&inv)))
	})?;
	seen(true, if first.stdout.is_empty() { "diagnostic" } else { "breakdown" })
}
/// Times at which something about dates or counters changes.
const TIMES: &[i64] = &[
	0, 1, 86_399, 946_684_799, 946_684_800, 951_782_400, 1_000_000_000, 1_234_567_890, 1_577_836_800, 1_709_164_800, 1_735_689_599, 1_735_689_600, 1_750_000_000,
	1_767_225_599, 1_767_225_600, 1_798_761_600, 1_893_456_000, 2_000_000_000, 2_145_916_800, 2_147_483_647, 2_147_483_648, 2_524_607_999, 2_524_608_000, 3_155_760_000,
	4_102_444_800, 4_294_967_295, 4_294_967_296, 253_402_300_800,
];
const ZONES: &[&str] = &["UTC", "America/Toronto", "Asia/Kathmandu", "XXX-14", "YYY+12"];
/// Year, month and day of a number of days since 1970.
fn civil(days: i64) -> (i64, i64, i64) {
	let z = days + 719_468;
	let era = z.div_euclid(146_097);
	let doe = z.rem_euclid(146_097);
	let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
	let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
	let mp = (5 * doy + 2) / 153;
	let month = if mp < 10 { mp + 3 } else { mp - 9 };
	(yoe + era * 400 + i64::from(month <= 2), month, doy - (153 * mp + 2) / 5 + 1)
}
fn times() -> Vec<Timed> {
	let mut questions: Vec<String> = [
		"--tvr=8000048000", "--tsi=E800", "--tsi=E8", "--service-code=201", "--identify=5F24", "--identify=9A", "--cvm-list=000003E8000000005E031F00",
		"--cvm-results=5E0301", "--ccd-cvr=A440000102", "--ccd-iad=0FA501A440000102010203040506070F010203040506070809A0B0C0D0E0F010", "--ber-tlv=95",
	]
	.map(str::to_owned)
	.into();
	// Dates of all kinds
	for year in ["00", "19", "24", "25", "26", "27", "38", "49", "50", "69", "70", "99"] {
		for day in ["0101", "0228", "0229", "0331", "0631", "1231", "0000", "1332"] {
			questions.push(format!("--ber-tlv=5F2403{year}{day}5F2503{year}{day}9A03{year}{day}9F2103235959"));
		}
		questions.push(format!("--auto-tlv=T57:0B:h5413330089601075D{year}12201,T5F24:03:h{year}0731,T9A:03:h{year}0731"));
		questions.push(format!("--ingenico-tlv=T5F24:03:h{year}1130,T9F21:03:h000000,T9F36:02:h00{year}"));
	}
	let mut cases = Vec::new();
	// Dates at, before and after the time they're shown
	let bcd = |n: i64| format!("{:02}", n.rem_euclid(100));
	for month in 0..240i64 {
		let now = 1_500_000_000 + month * 2_629_746 + month % 29 * 86_400;
		let date = |days: i64| {
			let (y, m, d) = civil(now / 86_400 + days);
			format!("{}{}{}", bcd(y), bcd(m), bcd(d))
		};
		let block: String = [0, -1, 1, -30, 30, -365, 365].iter().map(|d| format!("5F2403{0}5F2503{0}9A03{0}", date(*d))).collect();
		let (_, m, d) = civil(now / 86_400);
		let track = format!("570B5413330089601075D{}2201", &date(0)[..4]);
		let tail = format!("9F2103{}{}{}9F4104{}", bcd(now % 86_400 / 3_600), bcd(now % 3_600 / 60), bcd(now % 60), format!("{:04}{}{}", month, bcd(m), bcd(d)));
		cases.push(Timed {
			args: vec![format!("--{}={block}{track}{tail}", ["ber-tlv", "auto-tlv"][month as usize % 2])],
			time: now,
			zone: ZONES[month as usize % ZONES.len()].to_owned(),
		});
	}
	for (i, question) in questions.iter().enumerate() {
		for (j, time) in TIMES.iter().enumerate() {
			cases.push(Timed {
				args: vec![question.clone()],
				time: *time,
				zone: ZONES[(i + j) % ZONES.len()].to_owned(),
			});
		}
	}
	cases
}
fn any_time() -> BoxedStrategy<Timed> {
	(c22::case(), prop_oneof![0..4_102_444_800i64, select(TIMES), 1_600_000_000..1_900_000_000i64], select(ZONES))
		.prop_filter("an empty value", |(c, ..)| !c.data.is_empty())
		.prop_map(|(question, time, zone)| Timed {
			args: args(&question, 0),
			time,
			zone: zone.to_owned(),
		})
		.boxed()
}

/// Questions of all kinds.
const QUESTIONS: &[&[&str]] = &[
	&["--ber-tlv=9F1A020840E1099F01010150033030305F2A0231319A0300000057020000C1022A2A9505800004800057023030"],
	&["--ber-tlv=9F1A0208405A022A2A", "--no-sort", "--masking-character=*"],
	&["--ber-tlv=9F1A0208405A022A2A", "--colour=always"],
	&["--ber-tlv=95"],
	&["--ber-tlv="],
	&["--auto-tlv=T50:01:h41,TDF01:01:h31,C9F5A:01:h31"],
	&["--auto-tlv=DF010131C10130"],
	&["--ingenico-tlv=TC1:01:h41,T5A:03:hABCDEF,T5F30:02:h0201"],
	&["--ingenico-tlv=x"],
	&["--identify=9F1A"],
	&["--identify=DF01"],
	&["--tvr=8000048000"],
	&["--tsi=E800"],
	&["--tsi=E8"],
	&["--service-code=201"],
	&["--service-code=x"],
	&["--cvm-list=000003E8000000005E031F00"],
	&["--cvm-results=5E0301"],
	&["--ccd-cvr=A440000102"],
	&["--ccd-iad=0FA501A440000102010203040506070F010203040506070809A0B0C0D0E0F010"],
];
/// Every variable that a question makes the program ask for, with every value.
fn asked(scratch: &Path) -> Result<Vec<Case>, String> {
	let mut cases = Vec::new();
	for (i, question) in QUESTIONS.iter().enumerate() {
		let into = scratch.join(format!("asked-{i}"));
		let mut inv = Inv::new(question.iter().map(|a| (*a).to_owned()));
		inv.env = vec![("VERIF_ASKED".to_owned(), into.display().to_string())];
		exec::run(&inv)?;
		let text = fs::read(&into).unwrap_or_default();
		drop(fs::remove_file(&into));
		let mut names: Vec<String> = String::from_utf8_lossy(&text).lines().map(str::to_owned).collect();
		names.sort();
		names.dedup();
		names.retain(|n| {
			!n.is_empty() && !n.starts_with("VERIF_") && usable(n) && !n.contains('=') && !n.starts_with("LD_") && !n.starts_with("GLIBC")
		});
		let likely = [
			"", "0", "1", "2", "true", "false", "yes", "no", "on", "off", "always", "never", "all", "full", "*", "C", "en_US.UTF-8", "fr_CA", "de",
			"dumb", "xterm-256color", "20", "80", "1000", "{root}/elsewhere", "/", "root", "pemv", "debug", "trace", "x",
		];
		for name in names {
			for value in likely.iter().copied().chain(gen::dictionary().strings.iter().map(String::as_str).filter(|s| (1..20).contains(&s.len()) && !s.contains('\0'))) {
				cases.push(Case {
					args:  question.iter().map(|a| (*a).to_owned()).collect(),
					order: vec![],
					env:   vec![(name.clone(), value.to_owned())],
					other: vec![],
					place: 0,
					input: None,
					name:  None,
					named: false,
					apart: false,
				});
			}
		}
	}
	Ok(cases)
}

/// A question asked by someone else, or by a process of another number.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Asker {
	args: Vec<String>,
	who:  u32,
}
fn check_asker(case: &Asker) -> Checked {
	let inv = Inv::new(case.args.clone());
	let first = exec::run(&inv).map_err(Failure::Infra)?;
	let mut other = inv.clone();
	other.env = vec![("VERIF_WHO".to_owned(), case.who.to_string())];
	let then = exec::run(&other).map_err(Failure::Infra)?;
	same(&first, &then).map_err(|e| Failure::from(format!("{e}, asked by user and process {}: {}", case.who, show(&inv))))?;
	seen(true, if first.stdout.is_empty() { "diagnostic" } else { "breakdown" })
}
fn askers() -> Vec<Asker> {
	let mut cases = Vec::new();
	for question in QUESTIONS {
		for who in [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 33, 64, 99, 100, 127, 128, 255, 256, 500, 501, 999, 1000, 1001, 1024, 32767, 32768, 65534, 65535, 4_194_303] {
			cases.push(Asker {
				args: question.iter().map(|a| (*a).to_owned()).collect(),
				who,
			});
		}
	}
	cases
}

/// Every name the program may be called by.
fn called() -> Vec<Case> {
	let mut names: Vec<String> = gen::dictionary().strings.iter().filter(|s| !s.is_empty() && s.len() < 60 && !s.contains(['\0', '\n'])).cloned().collect();
	for s in gen::dictionary().strings.iter().filter(|s| (2..30).contains(&s.len()) && s.chars().all(|c| c.is_ascii_lowercase() || c == '-')) {
		for (before, after) in [("pemv-", ""), ("/usr/local/bin/", ""), ("", "pemv"), ("pemv_", ""), ("", ".exe")] {
			names.push(format!("{before}{s}{after}"));
		}
	}
	names.extend(["", "-pemv", "PEMV", "pemv.EXE", "pemv2", "pemvd", "rpemv", "pemv-raw", "cpemv", "pemvc", "pemv-color", "busybox", "/", "./pemv", "../pemv", " ", "p\u{eb}mv", "sh", "--", "-h"].map(str::to_owned));
	names.sort();
	names.dedup();
	let mut cases = Vec::new();
	for (i, name) in names.into_iter().enumerate() {
		for question in ["--ber-tlv=9F1A020840E1099F01010150033030305F2A0231319A0300000057020000C1022A2A", "--tvr=8000048000", "--auto-tlv=x"] {
			cases.push(Case {
				args:  vec![question.to_owned()],
				order: vec![],
				env:   vec![],
				other: vec![],
				place: (i % 2) as u8,
				input: None,
				name:  Some(name.clone()),
				named: false,
				apart: false,
			});
		}
	}
	cases
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("times", true, &times(), check_time);
	ctx.random("any-time", 2_500, any_time, check_time);
	ctx.each("askers", true, &askers(), check_asker);
	let places = ctx.scratch.clone();
	ctx.each("files-of-every-name", true, &files(), |case: &Files| check_files(&places, case));
	let scratch = ctx.scratch.clone();
	ctx.each("streams", true, &streams(), |case: &Streams| check_streams(&scratch, case));
	ctx.each("consoles", true, &consoles(), |case: &Console| check_console(&scratch, case));
	let judge = |case: &Case| check(&scratch, case);
	match asked(&ctx.scratch) {
		Ok(cases) => ctx.each("asked-for", true, &cases, judge),
		Err(error) => {
			eprintln!("{error}");
			return 2;
		}
	}
	ctx.each("called", true, &called(), judge);
	ctx.each("every-circumstance", true, &every_circumstance(), judge);
	ctx.random("circumstances", 25_000, case, judge);
	ctx.finish(
		"A question (any parsing option, any valid or invalid value, with or without settings) is asked \
		 twice, and again under other circumstances: the options in another order, variables that are no \
		 settings (well-known ones, near misses of the settings' names, and every string of the source text as \
		 a name), other working directories with files that resemble the configuration file, a home \
		 directory with one, files named like the value, with or without a mark (such as @) in front of it, \
		 files of every name in the text of the source, something to read on standard input, other program names, and, for options \
		 that don't parse TLV data, settings that concern only TLV data. Output, diagnostics and exit code \
		 have to be the same, and no file in the working, home and temporary directories may change. \
		 Questions of each kind are also asked with the clock set to other times, by other users and processes, with every variable the program is seen to ask for set to all kinds of values, with every combination of standard input, output and error on \
		 a pseudo-terminal of various sizes, in a directory that has been deleted, and with each of them a file (opened in \
		 various ways), a pipe, a socket, a directory, a device or closed. Non-trivial: all were compared.",
		&["the clock and the numbers of the user and process are set, and the variables asked for are seen, by functions linked into the program instead of the C library's, where there's a C compiler"],
	)
}
