//! What's installed beside the program: the manual page and the shells'
//! completions, which a release build generates when asked to.

use std::{fs, path::PathBuf, process::Command};

use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};

use super::c26::{self, Entry};
use crate::{
	common::*,
	engine::*,
	exec::{End, Inv},
};

fn installed(name: &str) -> Result<PathBuf, Failure> {
	let dir = std::env::var("PEMV_VERIF_INSTALL").map_err(|_| Failure::Infra("nowhere to find what's installed".to_owned()))?;
	Ok(PathBuf::from(dir).join(name))
}
fn text_of(name: &str) -> Result<String, Failure> {
	fs::read_to_string(installed(name)?).map_err(|e| Failure::from(format!("a release build that's asked to doesn't generate {name}: {e}")))
}
fn entries() -> Result<&'static [Entry], Failure> {
	Ok(&c26::help()?.entries)
}

// Completing in Bash

/// A word to complete after others.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Complete {
	before: Vec<String>,
	word:   String,
}
const DRIVER: &str = r#"
complete() { :; }
source "$1" || exit 9
shift
COMP_WORDS=(pemv "$@")
COMP_CWORD=$#
_pemv pemv "${COMP_WORDS[COMP_CWORD]}" "${COMP_WORDS[COMP_CWORD-1]}"
printf '%s\n' "${COMPREPLY[@]}"
"#;
fn check_complete(scratch: &std::path::Path, case: &Complete) -> Checked {
	text_of("pemv.bash")?;
	let empty = scratch.join("empty");
	fs::create_dir_all(&empty).map_err(|e| Failure::Infra(e.to_string()))?;
	let out = Command::new("bash")
		.args(["--norc", "--noprofile", "-c", DRIVER, "bash"])
		.arg(installed("pemv.bash")?)
		.args(&case.before)
		.arg(&case.word)
		.env_clear()
		.env("PATH", "/usr/bin:/bin")
		.env("LC_ALL", "C")
		.current_dir(&empty)
		.output()
		.map_err(|e| Failure::Infra(format!("bash: {e}")))?;
	let mut offered: Vec<String> = String::from_utf8_lossy(&out.stdout).lines().filter(|l| !l.is_empty()).map(str::to_owned).collect();
	offered.sort();
	let entries = entries()?;
	let option = case.before.last().and_then(|w| entries.iter().find(|e| e.names.contains(w)));
	let values = (!case.word.starts_with('-')).then_some(option).flatten().filter(|e| !e.values.is_empty() || e.takes);
	let all: Vec<String> = match values {
		Some(entry) => entry.values.clone(),
		None => entries.iter().flat_map(|e| e.names.clone()).collect(),
	};
	let mut want: Vec<String> = all.into_iter().filter(|n| n.starts_with(&case.word)).collect();
	want.sort();
	if offered != want {
		return Err(format!(
			"after {:?}, Bash completes {:?} with {offered:?}, though the help has {want:?} ({})",
			case.before,
			case.word,
			text(&out.stderr)
		)
		.into());
	}
	seen_n(!want.is_empty(), if values.is_some() { "values" } else { "options" }, want.len())
}
fn some_data(name: &str) -> &'static str {
	match name {
		"--identify" => "9F1A",
		"--auto-tlv" | "--ber-tlv" => "5A0112",
		"--ingenico-tlv" => "T5A:01:h12",
		"--tvr" => "8000048000",
		"--ccd-iad" => "0FA501A44000010201020304050607080F010203040506070809A0B0C0D0E0F0",
		"--ccd-cvr" => "A440000102",
		"--tsi" => "E800",
		"--cvm-results" => "5E0301",
		"--cvm-list" => "000003E8000000005E031F00",
		"--service-code" => "201",
		_ => "*",
	}
}
fn before() -> BoxedStrategy<Vec<String>> {
	let names: Vec<String> = entries().map(|e| e.iter().flat_map(|e| e.names.clone()).collect()).unwrap_or_default();
	let values: Vec<String> = entries().map(|e| e.iter().flat_map(|e| e.values.clone()).collect()).unwrap_or_default();
	let word = prop_oneof![
		4 => select(names),
		2 => select(values),
		2 => select(vec!["9F1A", "5A0112", "8000048000", "201", "pemv", "help", "x", "E800"]).prop_map(str::to_owned),
		1 => "[A-Za-z0-9]{1,12}",
	];
	vec(word, 0..6).boxed()
}
fn complete() -> BoxedStrategy<Complete> {
	let names: Vec<String> = entries()
		.map(|e| e.iter().flat_map(|e| e.names.iter().chain(&e.values).cloned().collect::<Vec<_>>()).collect())
		.unwrap_or_default();
	let word = prop_oneof![
		6 => (select(names), any::<prop::sample::Index>(), prop_oneof![4 => Just(String::new()), 1 => "[a-z0-9A-Z-]"]).prop_map(|(n, i, more)| format!("{}{more}", &n[..i.index(n.len() + 1)])),
		1 => "-{0,2}[a-zA-Z0-9-]{0,8}",
		1 => Just(String::new()),
	];
	(before(), word).prop_map(|(before, word)| Complete { before, word }).boxed()
}
/// Every beginning of every name and value, after every name.
fn every_complete() -> Vec<Complete> {
	let mut cases = Vec::new();
	let Ok(entries) = entries() else { return cases };
	for entry in entries {
		for name in &entry.names {
			for n in 0..=name.len() {
				for before in [vec![], vec!["--tvr".to_owned(), "8000048000".to_owned()], vec!["--no-sort".to_owned()]] {
					cases.push(Complete {
						before,
						word: name[..n].to_owned(),
					});
				}
			}
			for value in ["", "a", "an", "al", "n", "t", "tr", "true", "f", "false", "always", "alwaysx", "y", "0", "A"].into_iter().chain(entry.values.iter().map(String::as_str)) {
				cases.push(Complete {
					before: vec![name.clone()],
					word:   value.to_owned(),
				});
			}
		}
	}
	cases
}

// What the program makes of what's offered

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Offered {
	shell: String,
	args:  Vec<String>,
}
fn check_offered(case: &Offered) -> Checked {
	let inv = Inv::new(case.args.clone());
	let out = crate::exec::run(&inv).map_err(Failure::Infra)?;
	match classify(&out).map_err(|e| Failure::from(format!("{e}: {}", show(&inv))))? {
		Answer::Breakdown(_) if out.end == End::Code(0) => seen(true, "accepted"),
		answer => Err(format!("{} offers what the program doesn't take: {}: {answer:?}", case.shell, show(&inv)).into()),
	}
}
fn offered() -> Result<Vec<Offered>, Failure> {
	let mut cases = Vec::new();
	for shell in SHELLS {
		for item in items(shell)? {
			for name in &item.names {
				// What the help says the option is
				let main = entries()?.iter().find(|e| e.names.contains(name)).and_then(|e| e.names.first()).cloned().unwrap_or_else(|| name.clone());
				let lone = matches!(&main[..], "--help" | "--version");
				let values = match &item.values {
					Some(values) => values.clone(),
					None if main == "--colour" => vec!["never".to_owned()],
					None if main.ends_with("sort-parsed-tags") => vec!["true".to_owned()],
					None => vec![some_data(&main).to_owned()],
				};
				for value in values {
					let mut args = vec![name.clone()];
					if !lone {
						args.push(value);
					}
					if matches!(&main[..], "--colour" | "--masking-character" | "--sort-parsed-tags" | "--no-sort-parsed-tags") {
						args.push("--ber-tlv=9F1A020840".to_owned());
					}
					cases.push(Offered {
						shell: (*shell).to_owned(),
						args,
					});
				}
			}
		}
	}
	Ok(cases)
}

// What the others list

const SHELLS: &[&str] = &["fish", "elvish", "PowerShell", "Zsh", "man"];
/// An option as one of them has it.
#[derive(Clone, Debug, Default)]
struct Item {
	names:    Vec<String>,
	values:   Option<Vec<String>>,
	defaults: Option<Vec<String>>,
	text:     String,
}
/// Only what isn't subject to quoting and breaking of lines.
fn squeeze(text: &str) -> String {
	text.chars().filter(|c| !c.is_whitespace() && !"'`\"\\\u{2018}\u{2019}".contains(*c)).collect()
}
/// The value of something in single quotes. (a quote in it is doubled, or
/// there's a backslash in front of it)
fn quoted(s: &str) -> String {
	let mut got = String::new();
	let mut rest = s.chars().peekable();
	while let Some(c) = rest.next() {
		match c {
			'\\' => got.extend(rest.next()),
			'\'' if rest.peek() == Some(&'\'') => got.extend(rest.next()),
			'\'' => break,
			c => got.push(c),
		}
	}
	got
}
fn items(shell: &str) -> Result<Vec<Item>, Failure> {
	let name = match shell {
		"fish" => "pemv.fish",
		"elvish" => "pemv.elv",
		"PowerShell" => "_pemv.ps1",
		"Zsh" => "_pemv",
		_ => "pemv.1",
	};
	let text = text_of(name)?;
	let mut items = Vec::new();
	match shell {
		"fish" => {
			for line in text.lines().filter_map(|l| l.strip_prefix("complete -c pemv ")) {
				let (head, tail) = line.split_once(" -d '").unwrap_or((line, ""));
				let mut item = Item {
					text: quoted(tail),
					..Item::default()
				};
				let words: Vec<&str> = head.split(' ').collect();
				for pair in words.windows(2) {
					match pair[0] {
						"-s" => item.names.push(format!("-{}", pair[1])),
						"-l" => item.names.push(format!("--{}", pair[1])),
						_ => {}
					}
				}
				item.values = line
					.split_once(" -a \"{")
					.and_then(|(_, v)| v.split_once("}\""))
					.map(|(v, _)| v.split(',').map(|v| v.split('\t').next().unwrap_or_default().to_owned()).collect());
				items.push(item);
			}
		}
		"elvish" => {
			for line in text.lines().filter_map(|l| l.trim().strip_prefix("cand ")) {
				let (name, tail) = line.split_once(" '").unwrap_or((line, ""));
				items.push(Item {
					names: vec![name.to_owned()],
					text: quoted(tail),
					..Item::default()
				});
			}
		}
		"PowerShell" => {
			for line in text.lines().filter_map(|l| l.trim().strip_prefix("[CompletionResult]::new('")) {
				let (name, tail) = line.split_once('\'').unwrap_or((line, ""));
				items.push(Item {
					names: vec![name.to_owned()],
					text: tail.rsplit_once(", '").map_or_else(String::new, |(_, t)| quoted(t)),
					..Item::default()
				});
			}
		}
		"Zsh" => {
			for line in text.lines().filter_map(|l| l.strip_prefix('\'')) {
				let (head, tail) = line.split_once('[').unwrap_or((line, ""));
				let head = head.rsplit(')').next().unwrap_or(head);
				let name = head.trim_start_matches('*').trim_end_matches(['=', '+']);
				if !name.starts_with('-') {
					continue;
				}
				let (about, rest) = tail.split_once(']').unwrap_or((tail, ""));
				items.push(Item {
					names: vec![name.to_owned()],
					values: rest
						.split_once(":(")
						.and_then(|(_, v)| v.split_once(')'))
						.map(|(v, _)| v.split(' ').map(str::to_owned).collect()),
					text: about.to_owned(),
					..Item::default()
				});
			}
		}
		_ => {
			let plain = text.replace("\\-", "-").replace("\\*(Aq", "'").replace("\\fB", "").replace("\\fI", "").replace("\\fR", "");
			let end = plain.find("\n.SH VERSION").unwrap_or(plain.len());
			for part in plain[..end].split("\n.TP\n").skip(1) {
				let (head, tail) = part.split_once('\n').unwrap_or((part, ""));
				let (head, default) = match head.split_once(" [default: ") {
					Some((h, d)) => (h, vec![d.trim_end_matches(']').to_owned()]),
					None => (head, vec![]),
				};
				let mut item = Item {
					defaults: Some(default),
					names: head.split(", ").map(|w| w.split('=').next().unwrap_or(w).to_owned()).collect(),
					values: Some(vec![]),
					..Item::default()
				};
				for line in tail.lines() {
					if let Some(values) = line.strip_prefix("[possible values: ") {
						item.values = Some(values.trim_end_matches(']').split(", ").map(str::to_owned).collect());
					} else if line.starts_with(".SH") {
						break;
					} else if !line.starts_with(".br") {
						item.text.push_str(line);
						item.text.push(' ');
					}
				}
				items.push(item);
			}
		}
	}
	Ok(items)
}
/// The descriptions in the help, by the options' long names.
fn descriptions(help: &str) -> Vec<(Vec<String>, String)> {
	let mut all: Vec<(Vec<String>, String, bool)> = Vec::new();
	for line in help.lines() {
		let trimmed = line.trim_start();
		if line.starts_with(' ') && (trimmed.starts_with("--") || (trimmed.starts_with('-') && trimmed.get(2..5) == Some(", -"))) {
			let (head, rest) = trimmed.split_once("  ").unwrap_or((trimmed, ""));
			let names = head.split([' ', ',']).filter(|w| w.starts_with('-')).map(str::to_owned).collect();
			all.push((names, rest.to_owned(), true));
		} else if let Some((_, text, open)) = all.last_mut() {
			// (a heading ends it)
			*open &= line.is_empty() || line.starts_with(' ');
			if *open {
				text.push(' ');
				text.push_str(trimmed);
			}
		}
	}
	all.into_iter()
		.map(|(names, text, _)| {
			let end = ["[default: ", "[aliases: ", "[possible values: "].iter().filter_map(|l| text.find(l)).min().unwrap_or(text.len());
			(names, squeeze(&text[..end]))
		})
		.collect()
}

/// An option, as the help has it, in what's generated for a shell.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Listed {
	shell: String,
	/// Nothing: there are no others.
	name:  Option<String>,
}
fn check_listed(case: &Listed) -> Checked {
	let man = case.shell == "man";
	let items = items(&case.shell)?;
	let entries = entries()?;
	let Some(name) = &case.name else {
		let known: Vec<&String> = entries.iter().flat_map(|e| &e.names).collect();
		let mut found: Vec<&String> = items.iter().flat_map(|i| &i.names).collect();
		for name in &found {
			if !known.contains(name) {
				return Err(format!("what's generated for {} has {name}, which the help hasn't", case.shell).into());
			}
		}
		let count = found.len();
		found.sort();
		found.dedup();
		if found.len() != count {
			return Err(format!("what's generated for {} has an option more than once", case.shell).into());
		}
		return seen_n(true, "all", count);
	};
	let entry = entries.iter().find(|e| e.names.contains(name)).ok_or_else(|| Failure::Infra("no such option".to_owned()))?;
	let Some(item) = items.iter().find(|i| i.names.contains(name)) else {
		return Err(format!("what's generated for {} lacks {name}, which the help has", case.shell).into());
	};
	if let Some(values) = &item.values {
		if *values != entry.values {
			return Err(format!("what's generated for {} has the values {values:?} of {name}, the help {:?}", case.shell, entry.values).into());
		}
	}
	if let Some(defaults) = &item.defaults {
		if *defaults != entry.defaults {
			return Err(format!("what's generated for {} has the default {defaults:?} of {name}, the help {:?}", case.shell, entry.defaults).into());
		}
	}
	let help = c26::help()?;
	let described = descriptions(if man { &help.long } else { &help.short });
	let want = described.iter().find(|(n, _)| entry.names.iter().any(|e| n.contains(e))).map(|(_, t)| t.clone()).unwrap_or_default();
	let got = squeeze(&item.text);
	if got != want {
		return Err(format!("what's generated for {} describes {name} with {got:?}, the help with {want:?}", case.shell).into());
	}
	seen(true, "option")
}
fn listed() -> Result<Vec<Listed>, Failure> {
	let mut cases = Vec::new();
	for shell in SHELLS {
		cases.push(Listed {
			shell: (*shell).to_owned(),
			name:  None,
		});
		for entry in entries()? {
			for name in &entry.names {
				// (the manual page has no aliases)
				let own = c26::help()?.own.contains(name);
				if *shell != "man" || own {
					cases.push(Listed {
						shell: (*shell).to_owned(),
						name:  Some(name.clone()),
					});
				}
			}
		}
	}
	Ok(cases)
}

pub fn run(ctx: &Ctx) -> i32 {
	let listed = listed();
	let offered = offered();
	match (&listed, &offered) {
		(Err(Failure::Infra(e)), _) | (_, Err(Failure::Infra(e))) => {
			eprintln!("{e}");
			return 2;
		}
		_ => {}
	}
	// (if there's nothing to take them from, that's what fails)
	let nothing = |shell: &str| vec![Listed { shell: shell.to_owned(), name: None }];
	let listed = listed.unwrap_or_else(|_| SHELLS.iter().flat_map(|s| nothing(s)).collect());
	ctx.each("listed", true, &listed, check_listed);
	ctx.each("offered", true, &offered.unwrap_or_default(), check_offered);
	let scratch = ctx.scratch.clone();
	let judge = |case: &Complete| check_complete(&scratch, case);
	ctx.each("every-completion", true, &every_complete(), judge);
	ctx.random("completions", 6_000, complete, judge);
	ctx.finish(
		"The program is built as for a release, with a place for the manual page and the completions. Bash is \
		 asked to complete words (every beginning of every option and value, and generated ones) after \
		 generated others: what it offers has to be exactly the options (or, after an option that has a \
		 fixed set of them, values) of the help that begin that way. Every option of the help has to be in \
		 what's generated for Fish, Elvish, PowerShell, Zsh and man, and no other, with the help's \
		 description, and the same values and default where they have them; and the program has to take \
		 everything they have. Non-trivial: something is offered or compared.",
		&["the syntax of the scripts for shells other than Bash is read by the harness, as those shells aren't there"],
	)
}
