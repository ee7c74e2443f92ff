use std::sync::OnceLock;

use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};

use super::{
	c01::{is_tlv, OPTIONS},
	c19::brief,
};
use crate::{
	common::*,
	engine::*,
	exec::{self, End, Inv},
	gen,
	wire::{encode_block, encode_ingenico, hex},
};

// What the help says

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Entry {
	/// `--name`, `-n` and `--alias`, the long name first.
	pub names:    Vec<String>,
	pub takes:    bool,
	pub values:   Vec<String>,
	pub defaults: Vec<String>,
}
/// The help's list of options, however its lines are broken.
fn entries(help: &str) -> Vec<Entry> {
	let mut all: Vec<(String, String)> = Vec::new();
	for line in help.lines() {
		let trimmed = line.trim_start();
		let option = trimmed.starts_with("--") || (trimmed.starts_with('-') && trimmed.get(2..5) == Some(", -"));
		if option && line.starts_with(' ') {
			// The names end where the description starts, two spaces on
			let (head, rest) = trimmed.split_once("  ").unwrap_or((trimmed, ""));
			all.push((head.to_owned(), rest.to_owned()));
		} else if let Some((_, text)) = all.last_mut() {
			text.push(' ');
			text.push_str(trimmed);
		}
	}
	all.iter()
		.map(|(head, text)| {
			let list = |label: &str| -> Vec<String> {
				text.split_once(&format!("[{label}: "))
					.and_then(|(_, t)| t.split_once(']'))
					.map(|(l, _)| l.split(", ").map(|s| s.trim().to_owned()).collect())
					.unwrap_or_default()
			};
			let mut names: Vec<String> = head
				.split([' ', ','])
				.filter(|w| w.starts_with('-'))
				.map(str::to_owned)
				.collect();
			names.sort_by_key(|n| !n.starts_with("--"));
			names.extend(list("aliases").into_iter().map(|a| format!("--{a}")));
			Entry {
				names,
				takes: head.contains('<'),
				values: list("possible values"),
				defaults: list("default"),
			}
		})
		.collect()
}
pub struct Help {
	pub short:   String,
	pub long:    String,
	version: String,
	pub entries: Vec<Entry>,
	/// The names that aren't aliases.
	pub own:     Vec<String>,
	/// The short help's.
	briefly: Vec<Entry>,
}
/// What's printed when only that is asked for.
pub fn help() -> Result<&'static Help, Failure> {
	static HELP: OnceLock<Result<Help, Failure>> = OnceLock::new();
	HELP.get_or_init(|| {
		let ask = |arg: &str| breakdown(&Inv::new([arg]));
		let (short, long, version) = (ask("-h")?, ask("--help")?, ask("--version")?);
		let (entries, briefly) = (entries(&long), entries(&short));
		let own = long
			.lines()
			.map(str::trim_start)
			.filter(|l| l.starts_with('-'))
			.flat_map(|l| l.split("  ").next().unwrap_or(l).split([' ', ',']).filter(|w| w.starts_with('-')).map(str::to_owned))
			.collect();
		Ok(Help {
			short,
			long,
			version,
			entries,
			own,
			briefly,
		})
	})
	.as_ref()
	.map_err(Clone::clone)
}

// Requests

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Request {
	/// Nothing's wrong with these.
	before: Vec<String>,
	ask:    String,
	/// Anything.
	after:  Vec<String>,
	env:    Vec<(String, String)>,
}
fn check_request(case: &Request) -> Checked {
	let help = help()?;
	let mut inv = Inv::new(case.before.iter().chain([&case.ask]).chain(&case.after).cloned());
	inv.env.clone_from(&case.env);
	let out = exec::run(&inv).map_err(Failure::Infra)?;
	let want = match &case.ask[..] {
		"--help" => &help.long,
		"-h" | "-?" => &help.short,
		_ => &help.version,
	};
	match classify(&out).map_err(|e| Failure::from(format!("{e}: {}", show(&inv))))? {
		Answer::Breakdown(got) if got == *want => {}
		got => {
			return Err(format!(
				"{} is answered with {} instead of {}",
				show(&inv),
				brief(&got, &Answer::Breakdown(want.clone())),
				brief(&Answer::Breakdown(want.clone()), &got)
			)
			.into())
		}
	}
	if out.end != End::Code(0) {
		return Err(format!("the exit code is {:?}: {}", out.end, show(&inv)).into());
	}
	seen(inv.args.len() > 1 || !inv.env.is_empty(), if want == &help.version { "version" } else { "help" })
}

// Names

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Named {
	/// The option's long name.
	option: String,
	name:   String,
	value:  String,
	form:   u8,
}
fn check_named(case: &Named) -> Checked {
	if case.value.is_empty() || !fits(&case.value) {
		return seen(false, "empty or too long");
	}
	let entry = help()?.entries.iter().find(|e| e.names.first() == Some(&format!("--{}", case.option)));
	let Some(entry) = entry else {
		return Err(format!("--help doesn't list --{}", case.option).into());
	};
	let Some(name) = entry.names.iter().find(|n| n.trim_start_matches('-') == case.name) else {
		return Err(format!("--help doesn't list {} as a name of --{}", case.name, case.option).into());
	};
	if !entry.takes {
		return Err(format!("--help doesn't say that --{} takes a value", case.option).into());
	}
	match help()?.briefly.iter().find(|e| e.names.first() == Some(&format!("--{}", case.option))) {
		Some(e) if e.takes && e.names.iter().any(|n| n.trim_start_matches('-') == case.name) => {}
		_ => return Err(format!("-h doesn't list {} as a name of --{} with a value", case.name, case.option).into()),
	}
	let first = single(&case.option, &case.value);
	let inv = Inv::new(match case.form % 2 {
		1 if !case.value.starts_with('-') => vec![name.clone(), case.value.clone()],
		_ => vec![format!("{name}={}", case.value)],
	});
	let (want, got) = (answer(&first)?, answer(&inv)?);
	if got != want {
		return Err(format!(
			"{} is answered with {}, but {} with {}",
			show(&first),
			brief(&want, &got),
			show(&inv),
			brief(&got, &want)
		)
		.into());
	}
	seen(true, if matches!(want, Answer::Breakdown(_)) { "breakdown" } else { "diagnostic" })
}
/// The names the help gave in the first version, which users rely on.
const NAMES: &[(&str, &[&str])] = &[
	("auto-tlv", &["a", "auto", "parse-tlv", "parse"]),
	("ber-tlv", &["b"]),
	("ingenico-tlv", &["i"]),
	("identify", &[]),
	("tvr", &["t", "95", "iac", "tac"]),
	("ccd-iad", &["9F10", "iad"]),
	("ccd-cvr", &["cvr"]),
	("tsi", &["9B"]),
	("cvm-results", &["r", "9F34"]),
	("cvm-list", &["8E"]),
	("service-code", &["5F30"]),
];

// Values

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Setting {
	option: String,
	value:  String,
	data:   String,
}
/// The values the help lists are taken, others aren't; the default is what's in
/// effect.
fn check_setting(case: &Setting) -> Checked {
	let entry = help()?.entries.iter().find(|e| e.names.first() == Some(&format!("--{}", case.option)));
	let Some(entry) = entry else {
		return Err(format!("--help doesn't list --{}", case.option).into());
	};
	let brief = help()?.briefly.iter().find(|e| e.names.first() == entry.names.first());
	for (help, entry) in [("--help", Some(entry)), ("-h", brief)] {
		let Some(entry) = entry else {
			return Err(format!("{help} doesn't list --{}", case.option).into());
		};
		if entry.defaults.is_empty() {
			return Err(format!("{help} doesn't state the default of --{}", case.option).into());
		}
		if entry.values.is_empty() && case.option != "masking-character" {
			return Err(format!("{help} doesn't list the values of --{}", case.option).into());
		}
	}
	let plain = single("ber-tlv", &case.data);
	let want = answer(&plain)?;
	let mut judged = 0;
	for name in entry.names.iter().filter(|n| n.starts_with("--")) {
		let give = |value: &str| {
			let mut inv = plain.clone();
			inv.args.insert(0, format!("{name}={value}"));
			inv
		};
		for default in &entry.defaults {
			let inv = give(default);
			let got = answer(&inv)?;
			if got != want {
				return Err(format!("{} isn't the default, as the help says it is: {}", default, show(&inv)).into());
			}
			judged += 1;
		}
		if entry.values.is_empty() {
			continue;
		}
		for value in entry.values.iter().chain([&case.value]).filter(|v| !v.is_empty()) {
			let inv = give(value);
			let refused = matches!(&answer(&inv)?, Answer::Diagnostic(d) if d.starts_with("error:"));
			if refused == entry.values.contains(value) {
				return Err(format!(
					"{value:?} is {} although the help {} it: {}",
					if refused { "refused" } else { "accepted" },
					if refused { "lists" } else { "doesn't list" },
					show(&inv)
				)
				.into());
			}
			judged += 1;
		}
	}
	seen_n(judged > 0, "setting", judged)
}

/// The default's what's in effect on a terminal, too.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OnTerminal {
	data: String,
	env:  Vec<(String, String)>,
	/// Whether standard output is a terminal.
	out:  bool,
}
fn check_on_terminal(case: &OnTerminal) -> Checked {
	let mut inv = single("ber-tlv", &case.data);
	inv.env.clone_from(&case.env);
	let ask = |inv: &Inv| super::c22::on_terminals(inv, true, case.out, !case.out).map_err(Failure::Infra);
	let want = ask(&inv)?;
	let mut judged = 0;
	for entry in help()?.entries.iter().filter(|e| e.takes && !e.defaults.is_empty()) {
		for default in &entry.defaults {
			let mut given = inv.clone();
			given.args.insert(0, format!("{}={default}", entry.names[0]));
			if ask(&given)? != want {
				return Err(format!(
					"on a terminal {default} isn't the default, as the help says it is: {} (standard {} is a terminal)",
					show(&given),
					if case.out { "output" } else { "error" }
				)
				.into());
			}
			judged += 1;
		}
	}
	seen_n(judged > 0, "defaults on a terminal", judged)
}
fn on_terminals() -> Vec<OnTerminal> {
	let mut cases = Vec::new();
	for data in ["9A032A2A2A5A0111500242425A0100", "9505FCF8FCF8F0", "5A0211"] {
		for term in [None, Some("xterm"), Some("dumb"), Some("linux"), Some("")] {
			for other in [None, Some(("NO_COLOR", "1")), Some(("CI", "true")), Some(("CLICOLOR_FORCE", "1")), Some(("COLORTERM", "truecolor"))] {
				for out in [true, false] {
					let pairs = term.map(|t| ("TERM", t)).into_iter().chain(other);
					cases.push(OnTerminal {
						data: data.to_owned(),
						env: pairs.map(|(k, v)| (k.to_owned(), v.to_owned())).collect(),
						out,
					});
				}
			}
		}
	}
	cases
}

// Every name the help lists, of settings too

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Alike {
	/// Which entry of the help.
	entry: usize,
	value: Option<String>,
	data:  String,
}
fn check_alike(case: &Alike) -> Checked {
	let entries: Vec<&Entry> = help()?.entries.iter().filter(|e| e.names.len() > 1 && e.takes).collect();
	let Some(entry) = entries.get(case.entry % entries.len().max(1)) else {
		return Err("the help lists no option with more than one name".into());
	};
	let own = entry.names[0].trim_start_matches('-');
	let setting = !OPTIONS.contains(&own);
	let ask = |name: &str| {
		let given = match &case.value {
			Some(v) => format!("{name}={v}"),
			None => name.to_owned(),
		};
		let mut args = vec![given];
		if setting {
			args.insert(0, format!("--ber-tlv={}", case.data));
		}
		Inv::new(args)
	};
	// (usage notes quote the command line)
	let plain = |a: Answer| match a {
		Answer::Diagnostic(d) if d.starts_with("error:") => Answer::Diagnostic("the command line is refused".to_owned()),
		a => a,
	};
	let first = ask(&entry.names[0]);
	let want = plain(answer(&first)?);
	for name in &entry.names[1..] {
		let inv = ask(name);
		let got = plain(answer(&inv)?);
		if got != want {
			return Err(format!(
				"{} is answered with {}, but {} with {}",
				show(&first),
				brief(&want, &got),
				show(&inv),
				brief(&got, &want)
			)
			.into());
		}
	}
	seen_n(true, if setting { "setting" } else { "parsing option" }, entry.names.len() - 1)
}
/// A block that shows whether it's sorted, and what characters mask.
fn telling() -> BoxedStrategy<String> {
	gen::telling_objs().prop_map(|objs| hex(&encode_block(&objs))).boxed()
}

// Generation

fn data(option: &str) -> BoxedStrategy<String> {
	let right: BoxedStrategy<String> = match option {
		"tvr" | "ccd-cvr" => gen::bytes_of(5).prop_map(|v| hex(&v)).boxed(),
		"ccd-iad" => gen::ccd_iad().prop_map(|v| hex(&v)).boxed(),
		"tsi" => gen::bytes_of(2).prop_map(|v| hex(&v)).boxed(),
		"cvm-results" => gen::valid_value(&[0x9F, 0x34]).prop_map(|v| hex(&v)).boxed(),
		"cvm-list" => gen::cvm_list(4).prop_map(|v| hex(&v)).boxed(),
		"service-code" => (0u16..1_100).prop_map(|n| n.to_string()).boxed(),
		"identify" => gen::named_tag().prop_map(|t| hex(&t)).boxed(),
		"ingenico-tlv" => gen::recs(2, 10).prop_map(|r| encode_ingenico(&r, false)).boxed(),
		_ => gen::block(3, 2, 10).prop_map(|b| hex(&encode_block(&b))).boxed(),
	};
	prop_oneof![6 => right, 1 => "[ -~]{1,9}"].boxed()
}
/// Arguments nothing's wrong with.
fn faultless() -> BoxedStrategy<Vec<String>> {
	let parsing = select(OPTIONS).prop_flat_map(|o| (Just(o), data(o)));
	(
		proptest::option::of(parsing),
		proptest::option::of(select(vec!["auto", "always", "ansi", "never"])),
		proptest::option::of((gen::mask_char(), any::<bool>())),
		proptest::option::of(select(vec!["--sort", "--no-sort-parsed-tags", "--sort-parsed-tags=false", "--no-sort=true"])),
		any::<bool>(),
	)
		.prop_map(|(parsing, colour, mask, sort, first)| {
			let mut args = Vec::new();
			if let Some(c) = colour {
				args.push(format!("--colour={c}"));
			}
			let tlv = parsing.as_ref().is_some_and(|(o, _)| is_tlv(o));
			let option: Vec<String> = parsing
				.into_iter()
				.filter(|(_, d)| !d.is_empty() && !d.contains('\0'))
				.map(|(o, d)| format!("--{o}={d}"))
				.collect();
			if first {
				args.extend(option.clone());
			}
			if tlv && !option.is_empty() {
				args.extend(mask.map(|(m, short)| if short { format!("-m={m}") } else { format!("--masking={m}") }));
				args.extend(sort.map(str::to_owned));
			}
			if !first {
				args.extend(option);
			}
			args
		})
		.boxed()
}
fn anything() -> BoxedStrategy<Vec<String>> {
	let word = prop_oneof![
		2 => select(vec!["--help", "-h", "-V", "--bogus", "--", "-", "--tvr", "--tvr=", "-b", "-z", "--sort=maybe", "--colour=red", "--colour", "x", "--no-sort", "--sort", "-m", "-m="]).prop_map(str::to_owned),
		1 => "-{0,2}[a-zA-Z0-9=]{0,8}",
		1 => "[ -~]{0,12}",
	];
	prop_oneof![1 => Just(vec![]), 2 => faultless(), 2 => vec(word, 1..4)].boxed()
}
fn environment() -> BoxedStrategy<Vec<(String, String)>> {
	let one = (
		select(vec!["PEMV_CLI_COLOUR", "PEMV_MASKING_CHARACTERS", "PEMV_SORT_PARSED_TAGS", "PEMV_CONFIG", "PEMV_PROFILE", "PEMV_COLOUR", "PEMV_HELP", "PEMV_VERSION", "NO_COLOR"]),
		prop_oneof![
			2 => select(vec!["always", "blue", "true", "false", "[", "[\"*\"]", "/nonexistent", "1", ""]).prop_map(str::to_owned),
			1 => "[ -~]{0,8}",
		],
	)
		.prop_map(|(n, v)| (n.to_owned(), v));
	prop_oneof![1 => Just(vec![]), 1 => vec(one, 1..4)].boxed()
}

/// More and more arguments before and after the request.
fn many_arguments(asks: &[&str]) -> Vec<Request> {
	let mut cases = Vec::new();
	for n in (0..=70usize).chain([99, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1_000]) {
		for (i, ask) in asks.iter().enumerate() {
			for place in 0..3 {
				let mut given: Vec<String> = (0..n).map(|k| format!("-m={}", char::from(b'!' + (k % 90) as u8))).collect();
				given.insert(n * (i % 3) / 2, "--ber-tlv=5A00".to_owned());
				let after = given.split_off(given.len() * place / 2);
				cases.push(Request {
					before: given,
					ask: (*ask).to_owned(),
					after,
					env: vec![],
				});
			}
		}
	}
	cases
}

/// Nothing's asked, and nothing's wrong.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nothing {
	args: Vec<String>,
	env:  Vec<(String, String)>,
}
fn check_nothing(case: &Nothing) -> Checked {
	let help = help()?;
	let mut inv = Inv::new(case.args.clone());
	inv.env.clone_from(&case.env);
	let got = match answer(&inv)? {
		Answer::Breakdown(s) | Answer::Diagnostic(s) => s,
		Answer::Silent => String::new(),
	};
	// (the usage line has the program's name)
	let lines = |s: &str| -> Vec<String> { s.lines().filter(|l| !l.starts_with("Usage:")).map(str::to_owned).collect() };
	at(&inv, same_lines(&lines(&help.short), &lines(&got)).map_err(|e| format!("the help isn't shown where nothing is asked: {e}")))?;
	seen(true, "help")
}
fn nothing_asked() -> Vec<Nothing> {
	let mut args: Vec<Vec<String>> = vec![vec![]];
	for name in ["--colour", "--color"] {
		for value in ["auto", "always", "ansi", "never"] {
			args.push(vec![format!("{name}={value}")]);
			args.push(vec![name.to_owned(), value.to_owned()]);
		}
	}
	let mut cases = Vec::new();
	for args in args {
		for colour in [None, Some("always"), Some("never"), Some("auto"), Some("ansi")] {
			for masks in [None, Some("[]"), Some("[\"#\", \"X\"]")] {
				for sort in [None, Some("true"), Some("false")] {
					let all = [("PEMV_CLI_COLOUR", colour), ("PEMV_MASKING_CHARACTERS", masks), ("PEMV_SORT_PARSED_TAGS", sort)];
					cases.push(Nothing {
						args: args.clone(),
						env:  all.iter().filter_map(|(k, v)| v.map(|v| ((*k).to_owned(), v.to_owned()))).collect(),
					});
				}
			}
		}
	}
	cases
}

pub fn run(ctx: &Ctx) -> i32 {
	let asks = ["--help", "-h", "-?", "--version", "-V"];
	ctx.each("nothing-asked", true, &nothing_asked(), check_nothing);
	ctx.each("on-terminals", true, &on_terminals(), check_on_terminal);
	ctx.each("many-arguments", true, &many_arguments(&asks), check_request);
	let mut names = Vec::new();
	for (option, others) in NAMES {
		for name in [option].into_iter().chain(*others) {
			for form in 0..2 {
				names.push(Named {
					option: (*option).to_owned(),
					name: (*name).to_owned(),
					value: "8A023030".to_owned(),
					form,
				});
			}
		}
	}
	ctx.each("every-name", true, &names, check_named);
	let pairs: Vec<(String, String)> = NAMES
		.iter()
		.flat_map(|(o, others)| [o].into_iter().chain(*others).map(|n| ((*o).to_owned(), (*n).to_owned())))
		.collect();
	ctx.random(
		"names",
		12_000,
		|| {
			select(pairs.clone())
				.prop_flat_map(|(option, name)| {
					let data = data(&option);
					(Just(option), Just(name), data, any::<u8>())
				})
				.prop_map(|(option, name, value, form)| Named {
					option,
					name,
					value: value.replace('\0', ""),
					form,
				})
				.boxed()
		},
		check_named,
	);
	ctx.random(
		"settings",
		4_000,
		|| {
			let near = vec![
				"Always", "ALWAYS", "always ", " auto", "yes", "no", "on", "off", "1", "0", "True", "FALSE", "t", "f", "y", "n", "none", "ansi256", "default", "nev",
			];
			(
				select(vec!["colour", "masking-character", "sort-parsed-tags", "no-sort-parsed-tags"]),
				prop_oneof![2 => select(near).prop_map(str::to_owned), 1 => "[a-zA-Z]{1,7}", 1 => "[ -~]{1,9}"],
				prop_oneof![telling(), data("ber-tlv")],
			)
				.prop_filter("some", |(_, _, d)| !d.is_empty())
				.prop_map(|(option, value, data)| Setting {
					option: option.to_owned(),
					value,
					data,
				})
				.boxed()
		},
		check_setting,
	);
	ctx.random(
		"alike",
		6_000,
		|| {
			let value = prop_oneof![
				3 => Just(None),
				6 => select(vec!["true", "false", "always", "ansi", "never", "auto", "*", "#", "x", "0", "", "5A", "8A023030", "9A005A00"])
					.prop_map(|v| Some(v.to_owned())),
				1 => "[ -~]{1,5}".prop_map(Some),
			];
			(any::<u8>(), value, telling())
				.prop_map(|(entry, value, data)| Alike {
					entry: entry.into(),
					value,
					data,
				})
				.boxed()
		},
		check_alike,
	);
	ctx.random(
		"requests",
		30_000,
		move || {
			(faultless(), select(asks.to_vec()), anything(), environment())
				.prop_map(|(before, ask, after, env)| Request {
					before,
					ask: ask.to_owned(),
					after: after.into_iter().map(|a| a.replace('\0', "")).collect(),
					env,
				})
				.boxed()
		},
		check_request,
	);
	ctx.finish(
		"A request for the help or the version after any faultless arguments and before any others, \
		 with any settings in the environment, wrong ones included: the answer has to be the one to \
		 the request alone. No parsing option at all, with any right settings: the same help. Every option and name the help has to list, with random values, against \
		 the option's own name; the short help lists all of them too; every name it does list, of settings too, against the first of its entry, \
		 on data that shows sorting and masking; every value the help lists for a setting and random other ones; every \
		 default it states against not giving it, on random TLV data and on terminals. Non-trivial: an answer was \
		 compared with another.",
		&["the wording of the help isn't judged beyond the names, values and defaults in it"],
	)
}
