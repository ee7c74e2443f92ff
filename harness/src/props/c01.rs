use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};

use crate::{
	common::*,
	engine::*,
	exec::{self, Inv},
	gen,
	wire::{self, hex, unhex, Bad, Hex},
};

/// Every option that parses something.
pub const OPTIONS: &[&str] = &[
	"ber-tlv",
	"ingenico-tlv",
	"auto-tlv",
	"tvr",
	"ccd-iad",
	"ccd-cvr",
	"tsi",
	"cvm-results",
	"cvm-list",
	"identify",
	"service-code",
];
pub fn is_tlv(option: &str) -> bool {
	option.ends_with("-tlv")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
	option: String,
	masks:  Vec<char>,
	sort:   bool,
	colour: bool,
	text:   String,
}
impl Text {
	fn inv(&self) -> Inv {
		let mut args = Vec::new();
		if is_tlv(&self.option) {
			args.extend(self.masks.iter().map(|m| format!("-m={m}")));
			if !self.sort {
				args.push("--no-sort".to_owned());
			}
		}
		if self.colour {
			args.push("--colour=always".to_owned());
		}
		args.push(format!("--{}={}", self.option, self.text));
		Inv::new(args)
	}

	fn may_be_silent(&self) -> bool {
		match self.option.as_str() {
			"ber-tlv" => unhex(&self.text).is_empty(),
			"ingenico-tlv" => {
				let masks = if self.masks.is_empty() { &['*'][..] } else { &self.masks };
				match wire::parse_ingenico(&self.text, masks) {
					Ok(nodes) => nodes.is_empty(),
					Err(Bad::Undetermined) => true,
					Err(_) => false,
				}
			}
			_ => false,
		}
	}
}

fn judge(inv: &Inv, may_be_silent: bool) -> Checked {
	match answer(inv)? {
		Answer::Breakdown(_) => seen(true, "breakdown"),
		Answer::Diagnostic(_) => seen(true, "diagnostic"),
		Answer::Silent if may_be_silent => seen(false, "empty block"),
		Answer::Silent => Err(format!("no answer at all: {}", show(inv)).into()),
	}
}
fn check_text(case: &Text) -> Checked {
	if !fits(&case.text) {
		return seen(false, "too long");
	}
	judge(&case.inv(), case.may_be_silent())
}

fn around(text: BoxedStrategy<String>, options: &'static [&'static str]) -> BoxedStrategy<Text> {
	(
		select(options),
		prop_oneof![2 => Just(vec![]), 2 => gen::masks(3)],
		any::<bool>(),
		prop::bool::weighted(0.2),
		text,
	)
		.prop_map(|(option, masks, sort, colour, text)| Text {
			option: option.to_owned(),
			masks,
			sort,
			colour,
			text: text.replace('\0', ""),
		})
		.boxed()
}

fn any_text() -> BoxedStrategy<String> {
	let dict: Vec<String> = gen::dictionary()
		.strings
		.iter()
		.cloned()
		.chain(["0".to_owned()])
		.collect();
	prop_oneof![
		2 => vec(any::<char>(), 0..30).prop_map(String::from_iter),
		2 => "[ -~]{0,40}",
		2 => "[0-9A-Fa-f]{0,80}",
		1 => "[0-9]{0,12}",
		1 => "[+-]?[0-9]{1,6}( )?",
		2 => "(T?[0-9A-F]{0,6}:[0-9A-F]{0,4}:[ah]?[0-9A-F*]{0,12}[; ]?){0,3}",
		2 => vec(prop_oneof![
			select(dict),
			select(vec!["T", ":", "a", "h", "00", "9F", "95", "05", "*", "**", "FF", "\u{e9}", "1F", "84", "7FFFFFFF", "FFFFFFFF", "80"]).prop_map(str::to_owned),
		], 0..14).prop_map(|p| p.concat()),
	]
	.boxed()
}

/// Encodings with some edits, mostly given to the option they're meant for.
fn near_valid() -> BoxedStrategy<Text> {
	fn edits() -> impl Strategy<Value = Vec<gen::Edit>> + Clone {
		vec(gen::edit(), 0..3)
	}
	let ber = (gen::block(6, 3, 300), edits()).prop_map(|(objs, edits)| {
		let mut v = wire::encode_block(&objs);
		edits.iter().for_each(|e| gen::apply(e, &mut v));
		hex(&v)
	});
	let ingenico = (gen::recs(4, 60), edits()).prop_map(|(recs, edits)| {
		let mut v = wire::encode_ingenico(&recs, false).into_bytes();
		edits.iter().for_each(|e| gen::apply(e, &mut v));
		String::from_utf8_lossy(&v).into_owned()
	});
	let value = |tag: &'static [u8]| {
		(gen::valid_value(tag), edits()).prop_map(|(mut v, edits)| {
			edits.iter().for_each(|e| gen::apply(e, &mut v));
			hex(&v)
		})
	};
	const SINGLE: &[(&[u8], &str)] = &[
		(&[0x95], "tvr"),
		(&[0x9F, 0x10], "ccd-iad"),
		(&[0x9F, 0x0D], "ccd-cvr"),
		(&[0x9B], "tsi"),
		(&[0x9F, 0x34], "cvm-results"),
		(&[0x8E], "cvm-list"),
	];
	let matched = prop_oneof![
		6 => (select(vec!["ber-tlv", "auto-tlv"]), ber.clone()),
		4 => (select(vec!["ingenico-tlv", "auto-tlv"]), ingenico.clone()),
		4 => select(SINGLE).prop_flat_map(move |(tag, option)| (Just(option), value(tag))),
		1 => (Just("identify"), gen::any_tag().prop_map(|t| hex(&t))),
		1 => (Just("service-code"), (0u16..1200).prop_map(|n| n.to_string())),
		2 => (select(OPTIONS), prop_oneof![ber.boxed(), ingenico.boxed()]),
	];
	(
		matched,
		prop_oneof![2 => Just(vec![]), 2 => gen::masks(3)],
		any::<bool>(),
		prop::bool::weighted(0.2),
	)
		.prop_map(|((option, text), masks, sort, colour)| Text {
			option: option.to_owned(),
			masks,
			sort,
			colour,
			text: text.replace('\0', ""),
		})
		.boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Raw {
	args: Vec<Hex>,
}
impl Raw {
	fn may_be_silent(&self) -> bool {
		let masks = self.args.first().and_then(|a| Some(vec![String::from_utf8(a.strip_prefix(b"-m=")?.to_vec()).ok()?.chars().next()?]));
		let Some((option, text)) = self.args.last().and_then(|a| {
			let a = String::from_utf8(a.0.clone()).ok()?;
			let (option, text) = a.strip_prefix("--")?.split_once('=')?;
			Some((option.to_owned(), text.to_owned()))
		}) else {
			return false;
		};
		Text {
			option,
			masks: masks.unwrap_or_default(),
			sort: true,
			colour: false,
			text,
		}
		.may_be_silent()
	}
}
fn check_raw(case: &Raw) -> Checked {
	let args: Vec<Vec<u8>> = case.args.iter().map(|a| a.0.clone()).collect();
	let out = exec::run_bytes(&args).map_err(Failure::Infra)?;
	let at = || {
		args.iter()
			.map(|a| format!("{:?}", String::from_utf8_lossy(a)))
			.collect::<Vec<_>>()
			.join(" ")
	};
	match classify(&out).map_err(|e| format!("{e}: pemv {}", at()))? {
		Answer::Silent if case.may_be_silent() => seen(false, "empty block"),
		Answer::Silent => Err(format!("no answer at all: pemv {}", at()).into()),
		Answer::Breakdown(_) => seen(true, "breakdown"),
		Answer::Diagnostic(_) => seen(true, "diagnostic"),
	}
}

/// Deeply nested or otherwise oversized input, built when it's run.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
	option:   String,
	/// The tag that's repeated or nested.
	tag:      Hex,
	shape:    Shape,
	count:    usize,
	tail:     Hex,
	ingenico: bool,
	masks:    Vec<char>,
}
#[derive(Copy, Clone, Debug, Serialize, Deserialize)]
enum Shape {
	/// Objects in objects.
	Nested,
	/// Objects in objects, two at each level, the first of which is garbage.
	NestedAfterGarbage,
	/// Objects beside each other.
	Flat,
	/// One object with a long value.
	Long,
	/// One object with a long tag.
	LongTag,
	/// As `Nested`, but the innermost value is cut short.
	Broken,
}
impl Big {
	fn bytes(&self) -> Vec<u8> {
		let wrap = |value: &[u8]| {
			let mut v = self.tag.0.clone();
			wire::encode_length(value.len(), 0, &mut v);
			v.extend(value);
			v
		};
		const MAX: usize = 55_000;
		match self.shape {
			Shape::Nested | Shape::NestedAfterGarbage | Shape::Broken => {
				let mut v = self.tail.0.clone();
				if matches!(self.shape, Shape::Broken) {
					v = vec![0x5A, 0x7F];
				}
				for _ in 0..self.count {
					if matches!(self.shape, Shape::NestedAfterGarbage) {
						v.splice(0..0, [0xE1, 0x02, 0x9F, 0x9F]);
					}
					v = wrap(&v);
					if v.len() > MAX {
						break;
					}
				}
				v
			}
			Shape::Flat => {
				let one = wrap(&self.tail);
				let n = self.count.min(MAX / one.len());
				one.repeat(n)
			}
			Shape::Long => wrap(&self.tail.repeat(self.count.min(MAX / self.tail.len().max(1)))),
			Shape::LongTag => {
				let mut v = vec![0x9F];
				v.extend(vec![0x81; self.count.min(MAX)]);
				v.extend([0x01, 0x01, 0x00]);
				v
			}
		}
	}
}
fn check_big(case: &Big) -> Checked {
	let bytes = case.bytes();
	let text = if case.ingenico {
		format!("TE0:{:04X}:h{}", bytes.len(), hex(&bytes))
	} else {
		hex(&bytes)
	};
	if !fits(&text) || bytes.len() > 0xFFFF {
		return seen(false, "too long");
	}
	let sort = case.count % 2 == 0;
	judge(&tlv(&case.option, &text, &case.masks, sort), bytes.is_empty())
}
fn big_cases(counts: BoxedStrategy<usize>) -> BoxedStrategy<Big> {
	(
		select(vec![
			Shape::Nested,
			Shape::Nested,
			Shape::NestedAfterGarbage,
			Shape::Flat,
			Shape::Long,
			Shape::LongTag,
			Shape::Broken,
		]),
		counts,
		gen::constructed_tag(),
		gen::leaf(20).prop_map(|o| wire::encode_block(&[o])),
		select(vec!["ber-tlv", "ber-tlv", "auto-tlv"]),
		prop::bool::weighted(0.25),
		prop_oneof![Just(vec![]), gen::masks(3)],
	)
		.prop_map(|(shape, count, tag, tail, option, ingenico, masks)| Big {
			option: if ingenico { "ingenico-tlv" } else { option }.to_owned(),
			tag: tag.into(),
			shape,
			count,
			tail: tail.into(),
			ingenico,
			masks,
		})
		.boxed()
}

/// Each decoded object, and others, at each depth, below what's followed and beyond.
fn every_depth(thorough: bool) -> Vec<Big> {
	let leaves: &[&[u8]] = &[
		&[0x8E, 0x0A, 0, 0, 0, 1, 0, 0, 0, 0, 0x5E, 0x03],
		&[
			0x9F, 0x10, 0x20, 0x0F, 0xA5, 1, 0xA0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 0x0F, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11,
			12, 13, 14,
		],
		&[0x95, 5, 0x80, 0, 0x10, 0, 0x08],
		&[0x9F, 0x0D, 5, 0x80, 0, 0x10, 0, 0x08],
		&[0x9F, 0x34, 3, 0x1E, 0x03, 0x01],
		&[0x5F, 0x30, 2, 0x02, 0x01],
		&[0x8A, 2, 0x30, 0x30],
		&[0x5A, 2, 0x2A, 0x2A],
		&[0x5A, 0],
		&[0x70, 0],
		&[0x70, 2, 0x5A, 0x09],
		&[0xDF, 0x01, 1, 0x41],
		&[],
	];
	let mut cases = Vec::new();
	for (i, leaf) in leaves.iter().enumerate() {
		for count in 0..320usize {
			if !thorough && !(240..=262).contains(&count) && count % 32 != i {
				continue;
			}
			for (shape, ingenico) in [(Shape::Nested, false), (Shape::Nested, true), (Shape::NestedAfterGarbage, false)] {
				cases.push(Big {
					option: if ingenico { "ingenico-tlv" } else { "ber-tlv" }.to_owned(),
					tag: vec![0xE1].into(),
					shape,
					count,
					tail: leaf.to_vec().into(),
					ingenico,
					masks: vec![],
				});
			}
		}
	}
	cases
}

/// As many objects as fit, in and out of order, some refused or cut short.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
	n:      usize,
	option: String,
	kind:   u8,
	nested: bool,
	sort:   bool,
	masks:  Vec<char>,
}
fn check_crowd(case: &Crowd) -> Checked {
	let ingenico = case.option == "ingenico-tlv";
	let mut bytes = Vec::new();
	let mut text = String::new();
	for j in 0..case.n {
		let (tag, value): (u8, &[u8]) = match case.kind {
			0 => (0x5A, &[]),
			1 => ([0x5A, 0x57, 0x50, 0xC1][j * 7 % 4], &[]),
			2 => ([0xDA, 0x5A, 0x50][j % 3], &[0x2A][..j % 2]),
			3 => (0x41 + (j % 30) as u8, &[]),
			4 => (if j + 1 == case.n { 0x95 } else { 0x5A }, &[]),
			_ => (0xE1, &[][..]),
		};
		if ingenico && !case.nested {
			text.push_str(&format!("T{tag:02X}:{:X}:h{};", value.len(), hex(value)));
		} else {
			bytes.push(tag);
			bytes.push(value.len() as u8);
			bytes.extend(value);
		}
	}
	if case.nested {
		if ingenico {
			text = format!("T77:{:04X}:h{}", bytes.len(), hex(&bytes));
		} else {
			let mut v = vec![0x77];
			wire::encode_length(bytes.len(), 0, &mut v);
			v.extend(bytes);
			text = hex(&v);
		}
	} else if !ingenico {
		text = hex(&bytes);
	}
	if text.is_empty() || !fits(&text) {
		return seen(false, "empty or too long");
	}
	judge(&tlv(&case.option, &text, &case.masks, case.sort), false)
}
fn crowd_cases() -> Vec<Crowd> {
	let mut cases = Vec::new();
	for n in [100, 256, 1_000].iter().chain(VERY_MANY).copied() {
		for option in ["ber-tlv", "ingenico-tlv", "auto-tlv"] {
			for kind in 0..6u8 {
				for nested in [false, true] {
					let sort = (n + usize::from(kind)) % 4 != 0;
					let masks = if n % 3 == 0 { vec!['*'] } else { vec![] };
					cases.push(Crowd {
						n,
						option: option.to_owned(),
						kind,
						nested,
						sort,
						masks,
					});
				}
			}
		}
	}
	cases
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("crowds", true, &crowd_cases(), check_crowd);
	ctx.each("every-depth", true, &every_depth(ctx.thorough), check_big);
	ctx.random("texts", 60_000, || around(any_text(), OPTIONS), check_text);
	ctx.random("near-valid", 60_000, near_valid, check_text);
	ctx.random(
		"raw-arguments",
		4_000,
		|| {
			(select(OPTIONS), vec(1u8..=255, 0..20), prop_oneof![Just(vec![]), vec(1u8..=255, 1..3)])
				.prop_map(|(option, value, mask)| {
					let mut args = Vec::new();
					if is_tlv(option) && !mask.is_empty() {
						let mut m = b"-m=".to_vec();
						m.extend(mask);
						args.push(m.into());
					}
					let mut arg = format!("--{option}=").into_bytes();
					arg.extend(value);
					args.push(arg.into());
					Raw { args }
				})
				.boxed()
		},
		check_raw,
	);
	ctx.random(
		"big",
		2_500,
		|| big_cases(prop_oneof![3 => 1usize..400, 1 => 200usize..300].boxed()),
		check_big,
	);
	ctx.random(
		"very-big",
		48,
		|| big_cases(prop_oneof![2 => 400usize..1500, 1 => 1500usize..4000].boxed()),
		check_big,
	);
	ctx.finish(
		"Any text, near-valid encodings with 0-2 edits, non-UTF-8 arguments, and oversized input \
		 (deeply nested, many objects, long values and tags; each decoded object at each depth around \
		 that at which nesting is no longer followed) for every parsing option, with \
		 random masking characters, sorting and colour. Non-trivial: the program had to give an \
		 answer (not the empty block).",
		&[
			"20 s of CPU time on inputs of at most 120 kB count as unbounded work",
			"nesting is explored to 4000 levels, the most that takes seconds rather than minutes to \
			 print",
			"blocks without any object may be answered with empty output",
		],
	)
}
