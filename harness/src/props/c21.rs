use std::{
	path::{Path, PathBuf},
	sync::atomic::{AtomicU64, Ordering},
};

use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};

use crate::{common::*, display::*, engine::*, exec::Inv};

/// Values that a layer gives the settings.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq, Eq)]
pub struct Layer {
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub colour: Option<String>,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub masks:  Option<Vec<char>>,
	#[serde(default, skip_serializing_if = "Option::is_none")]
	pub sort:   Option<bool>,
}
impl Layer {
	fn is_empty(&self) -> bool {
		*self == Self::default()
	}

	pub fn toml(&self) -> String {
		let mut s = String::new();
		if let Some(v) = self.sort {
			s.push_str(&format!("sort_parsed_tags = {v}\n"));
		}
		if let Some(c) = &self.colour {
			s.push_str(&format!("cli_colour = \"{c}\"\n"));
		}
		if let Some(m) = &self.masks {
			s.push_str(&format!("masking_characters = {}\n", list(m)));
		}
		s
	}
}
/// Ways of writing the same tables.
fn styled(tables: &[(String, Layer)], style: u8) -> String {
	let text = |v: &str| match style & 4 {
		0 => format!("\"{}\"", v.replace('\\', "\\\\").replace('"', "\\\"")),
		_ if v.contains('\'') => format!("\"{v}\""),
		_ => format!("'{v}'"),
	};
	let key = |k: &str| if style & 8 != 0 { format!("\"{k}\"") } else { k.to_owned() };
	let pairs = |l: &Layer| -> Vec<(String, String)> {
		let mut all = Vec::new();
		if let Some(m) = &l.masks {
			let items: Vec<String> = m.iter().map(|c| text(&c.to_string())).collect();
			all.push((
				key("masking_characters"),
				match style & 16 {
					0 => format!("[{}]", items.join(",")),
					_ if style & 3 == 2 => format!("[ {} ]", items.join(" , ")),
					_ => format!("[\n  # each of them\n{}]", items.iter().map(|i| format!("\t{i}, # one\n")).collect::<String>()),
				},
			));
		}
		if let Some(c) = &l.colour {
			all.push((key("cli_colour"), text(c)));
		}
		if let Some(v) = l.sort {
			all.push((key("sort_parsed_tags"), v.to_string()));
		}
		if style & 32 != 0 {
			all.reverse();
		}
		all
	};
	let mut s = String::new();
	if style & 64 != 0 {
		s.push_str("# [global]\n\n#cli_colour = 'always'\n");
	}
	for (name, layer) in tables {
		let name = key(name);
		match style & 3 {
			1 => pairs(layer).iter().for_each(|(k, v)| s.push_str(&format!("{name}.{k} = {v}\n"))),
			2 => {
				let all: Vec<String> = pairs(layer).iter().map(|(k, v)| format!("{k} = {v}")).collect();
				s.push_str(&format!("{name} = {{ {} }}\n", all.join(", ")));
			}
			_ => {
				s.push_str(&format!("[ {name} ] # a table\n"));
				pairs(layer).iter().for_each(|(k, v)| s.push_str(&format!("  {k}={v}\t# as it is\n")));
			}
		}
	}
	if style & 128 != 0 {
		s = s.replace('\n', "\r\n");
	}
	if style & 3 == 3 {
		s.truncate(s.trim_end().len());
	}
	s
}
fn list(masks: &[char]) -> String {
	let quoted: Vec<String> = masks
		.iter()
		.map(|c| match c {
			'"' | '\\' => format!("\"\\{c}\""),
			c => format!("\"{c}\""),
		})
		.collect();
	format!("[{}]", quoted.join(", "))
}

/// Where the configuration file is, and what others there are that don't count.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
enum Place {
	None,
	/// Another one is above it.
	Here,
	/// Above the working directory.
	Above,
	TwoAbove,
	FarAbove,
	/// Named by the variable, and others are in the usual places.
	Named,
	NamedBeneath,
	/// The variable names one that doesn't exist, others are in the usual places.
	NamedMissing,
}
const PLACES: [Place; 8] = [
	Place::None,
	Place::Here,
	Place::Above,
	Place::TwoAbove,
	Place::FarAbove,
	Place::Named,
	Place::NamedBeneath,
	Place::NamedMissing,
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	cli:       Layer,
	/// How sorting and masks are written on the command line.
	writing:   u8,
	env:       Layer,
	place:     Place,
	global:    Layer,
	/// Its name and table.
	profile:   Option<(String, Layer)>,
	default:   Layer,
	/// The table of a profile that isn't in use.
	other:     Option<Layer>,
	/// The order of the tables.
	order:     u8,
	operation: u8,
	/// How the file is written; none: simply.
	#[serde(default)]
	style:     Option<u8>,
	/// What kind of file it is, and what size.
	#[serde(default)]
	kind:      u8,
	#[serde(default)]
	size:      usize,
}

fn file(case: &Case) -> String {
	let mut tables: Vec<(String, Layer)> = Vec::new();
	let mut add = |name: &str, layer: &Layer, keep: bool| {
		if !layer.is_empty() || keep {
			tables.push((name.to_owned(), layer.clone()));
		}
	};
	add("global", &case.global, case.order & 8 != 0);
	if let Some((name, layer)) = &case.profile {
		if name != "default" {
			add(name, layer, case.order & 16 != 0);
		}
	}
	add("default", &case.default, case.order & 32 != 0);
	if let Some(other) = &case.other {
		add("unrelated", other, false);
	}
	let n = tables.len().max(1);
	tables.rotate_left(usize::from(case.order) % n);
	if case.order & 64 != 0 {
		tables.reverse();
	}
	match case.style {
		Some(style) => styled(&tables, style),
		None => {
			let simple: Vec<String> = tables.iter().map(|(n, l)| format!("[{n}]\n{}", l.toml())).collect();
			simple.join("\n")
		}
	}
}

/// The objects of the run: tag and character its value is filled with, in an
/// order that isn't the sorted one.
const OBJECTS: [(u8, char); 11] = [
	(0xC5, '*'),
	(0xC2, '#'),
	(0xC9, 'X'),
	(0xCB, '"'),
	(0xC1, '0'),
	(0xC7, '.'),
	(0xCA, '\''),
	(0xC3, 'q'),
	(0xC4, '\\'),
	(0xC6, ' '),
	(0xC8, 'x'),
];
/// Those that have to be quoted with care, too.
const MORE_MASKS: [char; 11] = ['*', '#', 'X', '0', '.', '"', '\'', '\\', ' ', 'x', '\u{e9}'];
pub const MASKS: [char; 5] = ['*', '#', 'X', '0', '.'];

fn operation(kind: u8) -> String {
	let records: Vec<String> = OBJECTS.iter().map(|(t, c)| format!("T{t:02X}:02:a{c}{c}")).collect();
	let bytes: String = OBJECTS.iter().map(|(t, c)| format!("{t:02X}02{0:02X}{0:02X}", *c as u8)).collect();
	match kind % 4 {
		0 => format!("--ber-tlv={bytes}"),
		1 => format!("--ingenico-tlv={}", records.join("|")),
		2 => format!("--auto-tlv={bytes}"),
		_ => format!("--auto-tlv={}", records.join(",")),
	}
}
fn arguments(case: &Case) -> Vec<String> {
	let mut args = Vec::new();
	if let Some(c) = &case.cli.colour {
		args.push(format!("--colour={c}"));
	}
	if let Some(m) = &case.cli.masks {
		if case.writing & 1 == 0 {
			args.extend(m.iter().map(|c| format!("--masking-character={c}")));
		} else if !m.is_empty() {
			args.push("-m".to_owned());
			args.extend(m.iter().map(char::to_string));
		}
	}
	if let Some(s) = case.cli.sort {
		args.push(match (case.writing >> 1) % 3 {
			0 => format!("--sort-parsed-tags={s}"),
			1 => format!("--no-sort-parsed-tags={}", !s),
			_ if s => "--sort-parsed-tags".to_owned(),
			_ => "--no-sort-parsed-tags".to_owned(),
		});
	}
	args.push(operation(case.operation));
	if case.writing & 8 != 0 {
		args.rotate_right(1);
	}
	args
}

/// A directory for one case, with the files in it.
pub struct Dir(pub PathBuf);
impl Dir {
	pub fn new(scratch: &Path) -> Result<Self, Failure> {
		static NEXT: AtomicU64 = AtomicU64::new(0);
		let dir = scratch.join(format!("case-{}", NEXT.fetch_add(1, Ordering::SeqCst)));
		std::fs::create_dir_all(&dir).map_err(|e| Failure::Infra(e.to_string()))?;
		Ok(Self(dir))
	}

	pub fn write(&self, path: &str, content: &str) -> Result<(), Failure> {
		let path = self.0.join(path);
		let made = path.parent().map_or(Ok(()), std::fs::create_dir_all);
		made.and_then(|()| std::fs::write(&path, content))
			.map_err(|e| Failure::Infra(e.to_string()))
	}
}
impl Drop for Dir {
	fn drop(&mut self) {
		let _ = std::fs::remove_dir_all(&self.0);
	}
}

/// Files that other programs of this kind read, none of which counts here; and
/// what's in the environment about where they are.
fn surroundings(dir: &Dir, cwd: &Path, decoy: &str) -> Result<Vec<(String, String)>, Failure> {
	const HOME: &[&str] = &[
		"pemv.toml", ".pemv.toml", ".pemvrc", ".config/pemv.toml", ".config/pemv/pemv.toml", ".config/pemv/config.toml",
		".config/ParseEMV/pemv.toml", "pemv/pemv.toml", "pemv/config.toml", ".local/share/pemv/pemv.toml",
	];
	const BESIDE: &[&str] = &[
		".pemv.toml", "Pemv.toml", "PEMV.TOML", "pemv.conf", "pemv.ini", "pemv", "pemv.local.toml", "pemv.toml.local", "config.toml",
		".config/pemv.toml", "config/pemv.toml", ".pemv/pemv.toml", "settings/pemv.toml",
	];
	for path in HOME {
		dir.write(&format!("home/{path}"), decoy)?;
	}
	let at = cwd.strip_prefix(&dir.0).unwrap_or(cwd).display().to_string();
	for path in BESIDE {
		dir.write(&format!("{at}/{path}"), decoy)?;
	}
	let home = dir.0.join("home").display().to_string();
	let config = format!("{home}/.config");
	Ok([
		("HOME", &home),
		("XDG_CONFIG_HOME", &config),
		("XDG_CONFIG_DIRS", &config),
		("XDG_DATA_HOME", &config),
		("USERPROFILE", &home),
		("APPDATA", &config),
		("CARGO_HOME", &home),
		("PWD", &home),
		("OLDPWD", &home),
	]
	.into_iter()
	.map(|(k, v)| (k.to_owned(), v.clone()))
	.collect())
}

/// Judges what's in effect in a run of [`operation`].
fn in_effect(inv: &Inv, colour: &str, masks: &[char], sort: bool, about: &str) -> Result<(), Failure> {
	let out = breakdown(inv)?;
	let given = |e: String| -> Failure {
		format!("{e}: {} ({about})", show(inv)).into()
	};
	let coloured = out.contains('\u{1b}');
	if coloured != matches!(colour, "always" | "ansi") {
		return Err(given(format!(
			"colour should be {colour:?}, but the output is {}",
			if coloured { "coloured" } else { "not coloured" }
		)));
	}
	let text = plain(&out);
	let text = text.split_once("\n\n").filter(|(h, _)| h.starts_with("TLV Format")).map_or(&text[..], |(_, t)| t);
	let shown = parse_tlv(text).map_err(given)?;
	let mut due: Vec<(u8, bool)> = OBJECTS.iter().map(|(t, c)| (*t, masks.contains(c))).collect();
	if sort {
		due.sort_unstable();
	}
	let got: Vec<(u8, bool)> = shown.iter().map(|s| (s.tag[0], s.masked)).collect();
	let order = |l: &[(u8, bool)]| l.iter().map(|(t, _)| *t).collect::<Vec<u8>>();
	if order(&got) != order(&due) {
		return Err(given(format!("sorting should be {sort}, but the tags are {:02X?}", order(&got))));
	}
	if got != due {
		return Err(given(format!("the masking characters should be {masks:?}, but {got:02X?} is shown")));
	}
	Ok(())
}

/// Pads a file with comments.
fn sized(content: String, size: usize, kind: u8) -> String {
	let missing = size.saturating_sub(content.len() + 4);
	if missing == 0 {
		return content;
	}
	let padding = match kind % 3 {
		0 => format!("# {}\n", "x".repeat(missing)),
		1 => "# a comment\n".repeat(missing / 12 + 1),
		_ => "\n".repeat(missing),
	};
	if kind / 3 % 2 == 0 {
		format!("{padding}{content}\n")
	} else {
		format!("{content}\n{padding}")
	}
}
/// Puts a file there, as a link or with other attributes.
fn place(dir: &Dir, path: &str, content: &str, kind: u8) -> Result<(), Failure> {
	use std::os::unix::fs::{symlink, PermissionsExt};
	let target = dir.0.join(path);
	let real = format!("stored/{}.data", path.replace('/', "-"));
	let done = |r: std::io::Result<()>| r.map_err(|e| Failure::Infra(e.to_string()));
	if !matches!(kind % 8, 1..=4) {
		dir.write(path, content)?;
	} else {
		dir.write(&real, content)?;
		done(std::fs::create_dir_all(target.parent().unwrap()))?;
	}
	let stored = dir.0.join(&real);
	let up = "../".repeat(path.matches('/').count());
	match kind % 8 {
		1 => done(symlink(&stored, &target)),
		2 => done(symlink(format!("{up}{real}"), &target)),
		3 => {
			let between = dir.0.join("stored/between");
			done(symlink(&stored, &between))?;
			done(symlink(&between, &target))
		}
		4 => done(std::fs::hard_link(&stored, &target)),
		5 => done(std::fs::set_permissions(&target, PermissionsExt::from_mode(0o444))),
		6 => done(std::fs::set_permissions(&target, PermissionsExt::from_mode(0o777))),
		7 => {
			let old = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1);
			done(std::fs::File::options().append(true).open(&target).and_then(|f| f.set_modified(old)))
		}
		_ => Ok(()),
	}
}

fn check(scratch: &Path, case: &Case) -> Checked {
	let in_file = !matches!(case.place, Place::None | Place::NamedMissing);
	let profile = case
		.profile
		.as_ref()
		.filter(|(name, _)| name != "default")
		.map(|(_, l)| l.clone())
		.unwrap_or_default();
	let empty = Layer::default();
	let layers = [
		&case.cli,
		&case.env,
		if in_file { &case.global } else { &empty },
		if in_file { &profile } else { &empty },
		if in_file { &case.default } else { &empty },
	];
	let colour = layers.iter().find_map(|l| l.colour.clone()).unwrap_or_else(|| "auto".to_owned());
	let masks = layers.iter().find_map(|l| l.masks.clone()).unwrap_or_else(|| vec!['*']);
	let sort = layers.iter().find_map(|l| l.sort).unwrap_or(true);

	let dir = Dir::new(scratch)?;
	let far = "up/1/2/3/4/5/6/7/8/9/10/11/down";
	let cwd = dir.0.join(if case.place == Place::FarAbove { far } else { "up/down" });
	std::fs::create_dir_all(cwd.join("beneath")).map_err(|e| Failure::Infra(e.to_string()))?;
	// One that changes everything if it's taken
	let decoy = Layer {
		colour: Some(if matches!(&colour[..], "always" | "ansi") { "never" } else { "always" }.to_owned()),
		masks:  Some(vec!['q']),
		sort:   Some(!sort),
	};
	let decoy = format!("[global]\n{}", decoy.toml());
	let real = sized(file(case), case.size, case.kind);
	let mut env = surroundings(&dir, &cwd, &decoy)?;
	let usual = |content: &str| -> Result<(), Failure> {
		dir.write("up/pemv.toml", content)?;
		dir.write("up/down/pemv.toml", content)
	};
	match case.place {
		Place::None => {}
		Place::Here => {
			dir.write("up/pemv.toml", &decoy)?;
			dir.write("up/down/beneath/pemv.toml", &decoy)?;
			place(&dir, "up/down/pemv.toml", &real, case.kind)?;
		}
		Place::Above => {
			dir.write("pemv.toml", &decoy)?;
			place(&dir, "up/pemv.toml", &real, case.kind)?;
		}
		Place::TwoAbove => {
			dir.write("up/down/beneath/pemv.toml", &decoy)?;
			place(&dir, "pemv.toml", &real, case.kind)?;
		}
		Place::FarAbove => {
			dir.write(&format!("{far}/beneath/pemv.toml"), &decoy)?;
			dir.write("pemv.toml", &decoy)?;
			place(&dir, "up/pemv.toml", &real, case.kind)?;
		}
		Place::Named => {
			usual(&decoy)?;
			place(&dir, "elsewhere/settings.conf", &real, case.kind)?;
			env.push(("PEMV_CONFIG".to_owned(), dir.0.join("elsewhere/settings.conf").display().to_string()));
		}
		Place::NamedBeneath => {
			usual(&decoy)?;
			place(&dir, "up/down/beneath/other.toml", &real, case.kind)?;
			env.push(("PEMV_CONFIG".to_owned(), "beneath/other.toml".to_owned()));
		}
		Place::NamedMissing => {
			usual(&decoy)?;
			env.push(("PEMV_CONFIG".to_owned(), dir.0.join("absent.toml").display().to_string()));
		}
	}
	if let Some((name, _)) = &case.profile {
		env.push(("PEMV_PROFILE".to_owned(), name.clone()));
	}
	if let Some(c) = &case.env.colour {
		env.push(("PEMV_CLI_COLOUR".to_owned(), c.clone()));
	}
	if let Some(m) = &case.env.masks {
		env.push(("PEMV_MASKING_CHARACTERS".to_owned(), list(m)));
	}
	if let Some(s) = case.env.sort {
		env.push(("PEMV_SORT_PARSED_TAGS".to_owned(), s.to_string()));
	}
	let inv = Inv {
		args: arguments(case),
		env,
		cwd: Some(cwd),
	};
	let tables = if in_file { real.replace('\n', "; ") } else { "no file".to_owned() };
	in_effect(&inv, &colour, &masks, sort, &format!("{:?}: {tables}", case.place))?;
	let provided = layers.iter().filter(|l| !l.is_empty()).count();
	seen(
		provided > 0,
		match provided {
			0 => "nothing set",
			1 => "one layer",
			2 => "two layers",
			_ => "three or more layers",
		},
	)
}

/// One setting given every combination of two values by the layers, in turn.
fn every_combination() -> Vec<Case> {
	let mut cases = Vec::new();
	for setting in 0..3 {
		for code in 0..243u32 {
			for named in [false, true] {
				let value = |layer: u32| -> Layer {
					let v = code / 3u32.pow(layer) % 3;
					let mut l = Layer::default();
					if v == 0 {
						return l;
					}
					match setting {
						0 => l.colour = Some(["always", "never"][v as usize - 1].to_owned()),
						1 => l.masks = Some([vec!['*'], vec!['#', 'X']][v as usize - 1].clone()),
						_ => l.sort = Some(v == 1),
					}
					l
				};
				if !named && !value(3).is_empty() {
					continue;
				}
				cases.push(Case {
					cli: value(0),
					writing: (code % 16) as u8,
					env: value(1),
					place: PLACES[1 + (code as usize + setting) % 6],
					global: value(2),
					profile: named.then(|| ("work".to_owned(), value(3))),
					default: value(4),
					other: None,
					order: (code % 128) as u8,
					operation: (code / 3 % 4) as u8,
					style: (code % 3 == 1).then_some(code as u8),
					kind: 0,
					size: 0,
				});
			}
		}
	}
	cases
}
/// Each way of writing a setting, each place of the file, each operation.
fn every_writing() -> Vec<Case> {
	let mut cases = Vec::new();
	let base = |place| Case {
		cli: Layer::default(),
		writing: 0,
		env: Layer::default(),
		place,
		global: Layer::default(),
		profile: None,
		default: Layer::default(),
		other: None,
		order: 0,
		operation: 0,
		style: None,
		kind: 0,
		size: 0,
	};
	for place in PLACES {
		for operation in 0..4 {
			for writing in 0..16u8 {
				for (k, colour) in ["always", "ansi", "auto", "never"].into_iter().enumerate() {
					let layer = Layer {
						colour: Some(colour.to_owned()),
						masks:  Some(MASKS[..(k + usize::from(writing)) % 5].to_vec()),
						sort:   Some((k + usize::from(writing)) % 2 == 0),
					};
					let mut given = layer.clone();
					given.masks = given.masks.filter(|m| !m.is_empty());
					let opposite = Layer {
						colour: Some(if k < 2 { "never" } else { "always" }.to_owned()),
						masks:  Some(vec!['q']),
						sort:   layer.sort.map(|s| !s),
					};
					let case = Case { writing, operation, ..base(place) };
					// Given at each layer, with the opposite in the next ones
					cases.push(Case { cli: given, env: opposite.clone(), ..case.clone() });
					cases.push(Case { env: layer.clone(), global: opposite.clone(), ..case.clone() });
					cases.push(Case {
						global: layer.clone(),
						profile: Some(("p".to_owned(), opposite.clone())),
						default: opposite.clone(),
						..case.clone()
					});
					cases.push(Case {
						profile: Some(("a-b_1".to_owned(), layer.clone())),
						default: opposite.clone(),
						other: Some(opposite.clone()),
						..case.clone()
					});
					cases.push(Case {
						profile: Some(("default".to_owned(), Layer::default())),
						default: layer.clone(),
						other: Some(opposite.clone()),
						..case.clone()
					});
					cases.push(Case { default: layer, other: Some(opposite), ..case });
				}
			}
		}
	}
	cases
}

fn layer(chance: f64, least: usize) -> BoxedStrategy<Layer> {
	let maybe = |p| proptest::option::weighted(p, Just(()));
	(
		(maybe(chance), maybe(chance), maybe(chance)),
		select(vec!["always", "ansi", "auto", "never"]),
		prop_oneof![vec(select(MASKS.to_vec()), least..4), vec(select(MORE_MASKS.to_vec()), least..6)],
		any::<bool>(),
	)
		.prop_map(|((c, m, s), colour, masks, sort)| Layer {
			colour: c.map(|()| colour.to_owned()),
			masks:  m.map(|()| masks),
			sort:   s.map(|()| sort),
		})
		.boxed()
}

/// A file, or a profile, of any name.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Named {
	/// From the working directory; `{root}` stands for the directory above all.
	path:     String,
	/// Whether there's a file of that name.
	exists:   bool,
	profile:  Option<String>,
	/// Whether there's a table of that name.
	table:    bool,
	variant:  u8,
}
/// Names that might be taken for the one given.
fn mistaken(name: &str) -> Vec<String> {
	let mut all: Vec<String> = vec![
		format!("{name}.toml"),
		format!("{name}/pemv.toml"),
		format!("{name}.pemv.toml"),
		format!("pemv.{name}.toml"),
		name.to_lowercase(),
		name.to_uppercase(),
		name.replace('\\', "/"),
		name.replace("%20", " "),
		name.replace("%2F", "/"),
		name.replace('+', " "),
		name.replace(' ', ""),
		name.replace("$HOME", "{root}/home"),
		name.replace("${HOME}", "{root}/home"),
		name.replace("%HOME%", "{root}/home"),
		name.replace("~/", "{root}/home/"),
		name.replace("{}", "pemv"),
		name.replace('*', "pemv"),
		name.replace('?', "p"),
		name.trim_matches(['"', '\'']).to_owned(),
		name.trim_start_matches("file://").to_owned(),
		name.trim_start_matches("file:").to_owned(),
		name.trim_start_matches(['@', '<', '!', '-', '=', '?', '~', '.', '/']).to_owned(),
		name.trim_end_matches(['?', '!', '~', '.', '/', '*']).to_owned(),
	];
	for separator in [':', ';', ',', ' ', '|', '#', '?', '&', '=', '@', '.', '/', '\n', '\t'] {
		all.extend(name.split(separator).map(str::to_owned));
		all.extend(name.split_once(separator).map(|(a, _)| a.to_owned()));
		all.extend(name.rsplit_once(separator).map(|(a, _)| a.to_owned()));
	}
	if let Some((stem, _)) = name.rsplit_once('.') {
		all.push(format!("{stem}.toml"));
		all.push(format!("{stem}.local.toml"));
	}
	all.extend(name.rsplit_once('/').map(|(_, a)| format!("home/{a}")));
	all.retain(|n| n != name && !n.is_empty() && !n.contains('\0'));
	all.sort();
	all.dedup();
	all
}
fn check_named(scratch: &Path, case: &Named) -> Checked {
	let dir = Dir::new(scratch)?;
	let v = usize::from(case.variant);
	let real = Layer {
		colour: Some(["always", "never", "ansi", "auto"][v % 4].to_owned()),
		masks:  Some([vec!['#', 'X'], vec![], vec!['.'], vec!['0', '*']][v / 4 % 4].clone()),
		sort:   Some(v / 2 % 2 == 0),
	};
	let decoy = Layer {
		colour: Some(["never", "always", "never", "always"][v % 4].to_owned()),
		masks:  Some(vec!['q']),
		sort:   Some(v / 2 % 2 != 0),
	};
	let none = Layer {
		colour: Some("auto".to_owned()),
		masks:  Some(vec!['*']),
		sort:   Some(true),
	};
	let rooted = |n: &str| n.replace("{root}", &dir.0.display().to_string());
	let (path, cwd) = (rooted(&case.path), dir.0.join("up/down"));
	std::fs::create_dir_all(&cwd).map_err(|e| Failure::Infra(e.to_string()))?;
	let wrong = format!("[global]\n{}", decoy.toml());
	let mut env = surroundings(&dir, &dir.0.join("beside"), &wrong)?;
	let quoted = |name: &str| format!("\"{}\"", name.replace('\\', "\\\\").replace('"', "\\\""));
	let mut content = String::new();
	let mut due = &none;
	let selected = case.profile.as_deref().unwrap_or("default");
	let mut tables: Vec<String> = mistaken(selected).into_iter().filter(|n| !reserved(n) && !n.eq_ignore_ascii_case(selected)).collect();
	tables.sort_by_key(|t| t.to_lowercase());
	tables.dedup_by_key(|t| t.to_lowercase());
	for other in tables {
		content.push_str(&format!("[{}]\n{}", quoted(&other), decoy.toml()));
	}
	if case.table || case.profile.is_none() {
		content.push_str(&format!("[{}]\n{}", quoted(selected), real.toml()));
		due = &real;
	} else if selected != "default" {
		content.push_str(&format!("[default]\n{}", real.toml()));
		due = &real;
	}
	if !case.exists {
		due = &none;
	}
	if !case.path.is_empty() {
		let place = cwd.join(&path);
		if case.exists {
			place
				.parent()
				.map_or(Ok(()), std::fs::create_dir_all)
				.and_then(|()| std::fs::write(&place, &content))
				.map_err(|e| Failure::Infra(format!("{}: {e}", place.display())))?;
		}
		for near in mistaken(&case.path) {
			let near = cwd.join(rooted(&near));
			// (some can't be beside it, and some are the same)
			if near.starts_with(&dir.0) && !near.exists() && !place.starts_with(&near) && (case.exists || !near.starts_with(&place)) {
				let _ = near.parent().map_or(Ok(()), std::fs::create_dir_all).and_then(|()| std::fs::write(&near, &wrong));
			}
		}
		// (what isn't found is looked for above)
		let above = !case.exists && scratch.ancestors().any(|a| a.join(&path).exists());
		if above || case.exists != place.is_file() {
			return seen(false, "the same as another");
		}
		env.push(("PEMV_CONFIG".to_owned(), path.clone()));
	} else {
		dir.write("up/down/pemv.toml", &content)?;
	}
	env.extend(case.profile.iter().map(|p| ("PEMV_PROFILE".to_owned(), p.clone())));
	let inv = Inv {
		args: vec![operation(case.variant / 16)],
		env,
		cwd: Some(cwd),
	};
	let (colour, masks, sort) = (due.colour.clone().unwrap_or_default(), due.masks.clone().unwrap_or_default(), due.sort == Some(true));
	in_effect(&inv, &colour, &masks, sort, &format!("a file or profile of this name: {content:?}"))?;
	seen(true, if case.exists { "named file" } else { "no file" })
}
/// What can't be the name of an ordinary profile.
fn reserved(name: &str) -> bool {
	name.trim() != name || name.is_empty() || ["default", "global"].iter().any(|r| name.eq_ignore_ascii_case(r))
}
const PATHS: &[&str] = &[
	"settings", "settings.json", "settings.yaml", "settings.yml", "settings.ini", "settings.conf", "settings.cfg", "settings.TOML", "settings.tml", "settings.txt", "settings.toml.bak", "settings.toml.txt",
	"pemv", "pemv.json", "pemv.conf", "PEMV.TOML", "Pemv.Toml", ".pemv", ".toml", ".pemv.toml", "..toml", "a..toml", "a.b.c", "toml", "pemv.toml~", "pemv.toml.", "-", "--", "-x.toml", "--help", "~", "~/x.toml", "~/pemv.toml",
	"~root/x.toml", "~x.toml", "$HOME/x.toml", "${HOME}/x.toml", "%HOME%/x.toml", "$PWD.toml", "$x", "x$y.toml", "a:b.toml", "one.toml:two.toml", "one.toml;two.toml", "one.toml,two.toml", "one.toml two.toml", "one.toml|two.toml",
	"one toml", "with space/in the/path.toml", "a%20b.toml", "a%2Fb.toml", "a+b.toml", "a#b.toml", "a?b.toml", "a&b.toml", "a=b.toml", "a@b.toml", "@x.toml", "<x.toml", "!x.toml", "file:x.toml", "file://x.toml", "http://x.toml",
	"C:x.toml", "C:\\x.toml", "a\\b.toml", "\\x.toml", "*", "*.toml", "x*.toml", "?.toml", "[a].toml", "{a,b}.toml", "{}", "(x).toml", "'x.toml'", "\"x.toml\"", "`x`.toml", "x'y.toml", "x\"y.toml", "x\ty.toml", "x\ny.toml", "x\u{1b}y.toml",
	"\u{e9}.toml", "e\u{301}.toml", "\u{65e5}\u{672c}/\u{8a9e}.toml", "\u{1f4b3}.toml", "\u{df}.toml", "\u{130}.toml", "./x.toml", ".//x.toml", "./././x.toml", "../x.toml", "../../x.toml", "../down/x.toml", "../pemv.toml", "../sideways/pemv.toml",
	"a/../x.toml", "a/b/c/d/e/f/g/x.toml", "a//b.toml", "...", "..x", ".x", "x.", "1", "0", "true", "false", "null", "none", "None", "auto", "default", "global", "default.toml", "config", "config.toml", "{root}/x.toml", "{root}/x", "{root}/with space/x y.toml",
	"{root}/a:b/x.toml", "{root}/home/x.toml", "{root}/home/pemv.toml", "{root}/./x.toml", "{root}//x.toml", "{root}/up/../x.toml", "{root}/~/x.toml", "{root}/$HOME/x.toml", "{root}/up/down/x.toml", "{root}/x.toml:{root}/y.toml",
];
const PROFILES: &[&str] = &[
	"work", "w", "1", "01", "1.5", "true", "false", "null", "none", "inf", "nan", "2025-01-02", "a b", "a.b", "a:b", "a;b", "a,b", "a/b", "a\\b", "a|b", "a=b", "a#b", "a@b", "a+b", "a*b", "a'b", "a\"b", "[a]", "{a}", "(a)", "<a>", "'a'", "\"a\"", "$HOME", "~", "%x%",
	"-", "--", "-x", "_", ".", "..", "*", "?", "!", "#", "\u{e9}", "\u{df}", "\u{65e5}\u{672c}", "\u{1f4b3}", "debug", "release", "test", "prod", "production", "dev", "development", "local", "user", "root", "defaults", "defaul", "default1", "default.x", "x.default",
	"globals", "globa", "global1", "global.x", "my-global", "profile", "config", "pemv", "cli_colour", "sort_parsed_tags", "masking_characters", "colour", "work,other", "work other", "work:other", "other,work", "work.other", "other/work", "workwork", "work2", "wor",
	"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
];
fn names() -> Vec<Named> {
	let mut cases = Vec::new();
	for (i, path) in PATHS.iter().enumerate() {
		for k in 0..6u8 {
			cases.push(Named {
				path:    (*path).to_owned(),
				exists:  k % 3 != 2,
				profile: (k % 2 == 1).then(|| PROFILES[(i * 6 + usize::from(k)) % PROFILES.len()].to_owned()),
				table:   k != 3,
				variant: (i as u8).wrapping_mul(11).wrapping_add(k * 5),
			});
		}
	}
	for (i, profile) in PROFILES.iter().enumerate() {
		for k in 0..6u8 {
			cases.push(Named {
				path:    if k < 4 { String::new() } else { "{root}/x.toml".to_owned() },
				exists:  true,
				profile: Some((*profile).to_owned()),
				table:   k % 2 == 0,
				variant: (i as u8).wrapping_mul(7).wrapping_add(k * 37),
			});
		}
	}
	cases
}
fn any_name() -> BoxedStrategy<Named> {
	let piece = prop_oneof![
		3 => "[a-zA-Z0-9_]{1,6}",
		2 => select(vec![".", ":", ";", ",", " ", "~", "$", "%", "+", "-", "=", "@", "#", "'", "\"", "*", "?", "(", ")", "&", "|", "!", "^", "\u{e9}", "\\", "{", "[", "]"]).prop_map(str::to_owned),
		1 => select(vec![".toml", ".conf", "HOME", "pemv", "default", "global", "x.toml"]).prop_map(str::to_owned),
	];
	let name = || vec(piece.clone(), 1..6).prop_map(|p| p.concat().trim().to_owned()).prop_filter("a name", |n| !matches!(&n[..], "" | "." | "..") && !n.contains("{root"));
	let path = vec(name(), 1..4).prop_map(|p| p.join("/"));
	(prop_oneof![2 => path.clone(), 1 => path.prop_map(|p| format!("{{root}}/sub/{p}"))], prop::bool::weighted(0.7), proptest::option::of(name().prop_filter("not reserved", |n| !reserved(n))), prop::bool::weighted(0.7), any::<u8>())
		.prop_map(|(path, exists, profile, table, variant)| Named {
			path,
			exists,
			profile,
			table,
			variant,
		})
		.boxed()
}

/// Each way of writing the file, with each of its tables the one that counts.
fn every_style() -> Vec<Case> {
	let mut cases = Vec::new();
	for style in 0..=255u8 {
		for table in 0..3 {
			for k in 0..4usize {
				let i = usize::from(style) + k * 5 + table;
				let layer = Layer {
					colour: Some(["always", "ansi", "auto", "never"][i % 4].to_owned()),
					masks:  Some((0..i % 6).map(|j| MORE_MASKS[(i * 3 + j * 4) % 11]).collect()),
					sort:   Some(i / 2 % 2 == 0),
				};
				let other = Layer {
					colour: Some(["never", "never", "always", "always"][i % 4].to_owned()),
					masks:  Some(vec!['q']),
					sort:   Some(i / 2 % 2 != 0),
				};
				let empty = Layer::default();
				cases.push(Case {
					cli: empty.clone(),
					writing: 0,
					env: empty.clone(),
					place: PLACES[1 + i % 6],
					global: if table == 0 { layer.clone() } else { empty },
					profile: match table {
						0 => Some(("work".to_owned(), other.clone())),
						1 => Some((["work", "a-b_1", "x1"][i % 3].to_owned(), layer.clone())),
						_ => None,
					},
					default: if table == 2 { layer } else { other.clone() },
					other: (i % 3 == 0).then_some(other),
					order: (i * 11 % 128) as u8,
					operation: (i % 4) as u8,
					style: Some(style),
					kind: 0,
					size: 0,
				});
			}
		}
	}
	cases
}

/// Files of every kind and size.
fn every_file() -> Vec<Case> {
	let mut cases = Vec::new();
	for (n, size) in [0usize, 500, 1_000, 1_024, 2_048, 4_095, 4_096, 4_097, 5_000, 8_192, 10_000, 16_384, 20_000, 32_768, 50_000, 65_536, 100_000, 300_000, 1_100_000].into_iter().enumerate() {
		for kind in 0..24u8 {
			if size > 70_000 && kind % 4 != 0 {
				continue;
			}
			let i = n + usize::from(kind);
			let layer = Layer {
				colour: Some(["always", "ansi", "auto", "never"][i % 4].to_owned()),
				masks:  Some((0..i % 4).map(|j| MORE_MASKS[(i * 3 + j * 4) % 11]).collect()),
				sort:   Some(i / 2 % 2 == 0),
			};
			let empty = Layer::default();
			cases.push(Case {
				cli: empty.clone(),
				writing: 0,
				env: empty.clone(),
				place: PLACES[1 + (i + n) % 6],
				global: empty.clone(),
				profile: None,
				default: layer,
				other: None,
				order: 0,
				operation: (i % 4) as u8,
				style: None,
				kind,
				size,
			});
		}
	}
	cases
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("every-file", true, &every_file(), |case: &Case| check(&ctx.scratch, case));
	let check = |case: &Case| check(&ctx.scratch, case);
	ctx.each("every-combination", true, &every_combination(), check);
	ctx.each("every-writing-and-place", true, &every_writing(), check);
	ctx.each("every-style", true, &every_style(), check);
	ctx.each("names", true, &names(), |case: &Named| check_named(&ctx.scratch, case));
	ctx.random("any-name", 3_000, any_name, |case: &Named| check_named(&ctx.scratch, case));
	ctx.random(
		"layers",
		30_000,
		|| {
			(
				(layer(0.3, 1), 0u8..16, layer(0.35, 0)),
				select(PLACES.to_vec()),
				layer(0.4, 0),
				proptest::option::weighted(
					0.7,
					(
						prop_oneof![4 => select(vec!["work", "p", "default", "debug", "release", "x1"]).prop_map(str::to_owned), 1 => "[a-z][a-z0-9_-]{0,8}"],
						layer(0.5, 0),
					),
				),
				layer(0.5, 0),
				proptest::option::of(layer(0.7, 0)),
				(any::<u8>(), any::<u8>(), any::<Option<u8>>()),
			)
				.prop_map(|((cli, writing, env), place, global, mut profile, default, other, (order, operation, style))| {
					if profile.as_ref().is_some_and(|(n, _)| matches!(&n[..], "global" | "unrelated")) {
						profile = None;
					}
					Case {
						cli,
						writing,
						env,
						place,
						global,
						profile,
						default,
						other,
						order,
						operation,
						style,
						kind: order % 8,
						size: 0,
					}
				})
				.boxed()
		},
		check,
	);
	ctx.finish(
		"Colour, masking characters and sorting given by the command line, the environment and the \
		 file's global, selected and default tables: for each setting every combination of two \
		 values and absence in the five layers; every way of writing them, every place of the \
		 file and of writing it in TOML (in the working directory, above it, named by the variable, named but missing) \
		 with other files that don't count, in every TLV option; random mixtures; \
		 files and profiles of some hundred odd names and random ones, with others whose names might be taken for them. What's in \
		 effect is read off one run's colour codes, masked objects and order. Non-trivial: a \
		 layer provides a setting.",
		&["a configuration file that's named but doesn't exist provides nothing"],
	)
}
