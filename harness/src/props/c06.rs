use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};

use crate::{
	common::*,
	engine::*,
	gen,
	spec::Diag,
	wire::{encode_block, encode_ingenico, hex, parse_ber, parse_ingenico, unhex, Bad},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
	text:  String,
	masks: Vec<char>,
	sort:  bool,
	/// The masking characters are given by the environment.
	#[serde(default)]
	by_env: bool,
}

fn check(case: &Text) -> Checked {
	if case.text.is_empty() || !fits(&case.text) {
		return seen(false, "empty or too long");
	}
	let ask = |option: &str| {
		case.by_env
			.then(|| tlv_by_env(option, &case.text, &case.masks, case.sort))
			.flatten()
			.unwrap_or_else(|| tlv(option, &case.text, &case.masks, case.sort))
	};
	let auto = ask("auto-tlv");
	let ingenico = parse_ingenico(&case.text, &case.masks);
	let bytes = unhex(&case.text);
	let ber = parse_ber(&bytes, &case.masks);
	let (name, option, both) = match (&ingenico, &ber) {
		(Err(Bad::Undetermined), _) => return seen(false, "not determined"),
		(Ok(_), ber) => ("Ingenico", "ingenico-tlv", ber.is_ok() && !bytes.is_empty()),
		(Err(_), Err(Bad::Undetermined)) => return seen(false, "not determined"),
		(Err(_), Ok(nodes)) if !nodes.is_empty() => ("BER-TLV", "ber-tlv", false),
		_ => {
			refused_as(&auto, &Diag::Unrecognised)?;
			return seen(true, "unrecognised");
		}
	};
	let own = ask(option);
	let want = match answer(&own)? {
		Answer::Silent => Answer::Breakdown(format!("TLV Format: {name}\n\n")),
		Answer::Breakdown(s) => Answer::Breakdown(format!("TLV Format: {name}\n\n{s}")),
		diagnostic => diagnostic,
	};
	let got = answer(&auto)?;
	if want != got {
		return Err(format!(
			"{} should give {} but gives {}",
			show(&auto),
			crate::display::clip(&format!("{want:?}"), 200),
			crate::display::clip(&format!("{got:?}"), 200)
		)
		.into());
	}
	seen(
		true,
		match (name, both, want) {
			(_, _, Answer::Diagnostic(_)) => "valid structure, a decoded tag refuses its value",
			(_, true, _) => "valid Ingenico whose hex digits are valid BER-TLV",
			("Ingenico", ..) => "Ingenico",
			_ => "BER-TLV",
		},
	)
}

fn with_settings(text: BoxedStrategy<String>) -> BoxedStrategy<Text> {
	(
		text,
		prop_oneof![2 => Just(vec![]), 1 => Just(vec!['*']), 2 => gen::masks(3)],
		any::<bool>(),
		prop::bool::weighted(0.25),
	)
		.prop_map(|(text, masks, sort, by_env)| Text {
			text: text.replace('\0', ""),
			masks,
			sort,
			by_env,
		})
		.boxed()
}
fn ingenico(edits: usize) -> BoxedStrategy<String> {
	(gen::recs(5, 40), any::<bool>(), vec(gen::edit(), 0..=edits))
		.prop_map(|(recs, last, edits)| {
			let mut v = encode_ingenico(&recs, last).into_bytes();
			edits.iter().for_each(|e| gen::apply(e, &mut v));
			v.retain(|b| *b != 0);
			String::from_utf8_lossy(&v).into_owned()
		})
		.boxed()
}
fn ber(edits: usize) -> BoxedStrategy<String> {
	(
		gen::block(5, 2, 60),
		vec(gen::edit(), 0..=edits),
		prop_oneof![2 => Just(vec![]), 1 => vec(gen::noise(), 1..4)],
		any::<u64>(),
	)
		.prop_map(|(objs, edits, noise, lower)| {
			let mut v = encode_block(&objs);
			edits.iter().for_each(|e| gen::apply(e, &mut v));
			gen::noisy(&v, lower, &noise)
		})
		.boxed()
}
/// Record-like text whose hex digits form BER-TLV, with or without a fault.
fn ambiguous() -> BoxedStrategy<String> {
	let one = (
		gen::any_tag(),
		vec(gen::byte(), 0..20),
		prop_oneof![8 => Just("h"), 1 => Just("x"), 1 => Just("H"), 1 => Just("")],
		prop_oneof![8 => Just("T"), 1 => Just("t"), 1 => Just("\u{e9}"), 1 => Just("")],
		select(vec![";", " ", "|", "T", ":"]),
		any::<bool>(),
	)
		.prop_map(|(tag, value, format, kind, separator, lower)| {
			let s = format!(
				"{kind}{}:{:02X}:{format}{}{separator}",
				hex(&tag),
				value.len(),
				hex(&value)
			);
			if lower {
				s.replace('T', "\u{1}").to_lowercase().replace('\u{1}', "T")
			} else {
				s
			}
		});
	(vec(one, 1..5), any::<bool>())
		.prop_map(|(parts, cut)| {
			let mut s = parts.concat();
			if cut {
				s.pop();
			}
			s
		})
		.boxed()
}

/// Numbers of objects out of order, with and without something masked among
/// them, and some that aren't complete.
fn crowd_cases() -> Vec<Text> {
	let mut numbers: Vec<usize> = crowds().into_iter().map(|(n, _)| n).collect();
	numbers.extend(VERY_MANY);
	numbers.sort_unstable();
	numbers.dedup();
	let mut cases = Vec::new();
	for (i, n) in numbers.into_iter().filter(|n| *n > 0).enumerate() {
		for ingenico in [true, false] {
			for sort in [true, false] {
				for (k, masks) in [vec![], vec!['*'], vec!['#', '0']].into_iter().enumerate() {
					let objs = |masked: bool| -> String {
						(0..n)
							.map(|j| {
								let tag = [0x5A, 0x50, 0x57, 0xC1][(j * 7 + i) % 4];
								let value: &str = match (masked && j % 3 == 1, ingenico) {
									(true, true) => "**",
									(true, false) => "2A",
									_ if j % 5 == 0 => "7C",
									_ => "",
								};
								if ingenico {
									format!("T{tag:02X}:{:X}:h{value};", value.len() / 2)
								} else {
									format!("{tag:02X}{:02X}{value}", value.len() / 2)
								}
							})
							.collect()
					};
					let mut text = objs(true);
					if !fits(&text) {
						text = objs(false);
					}
					if (i + k) % 7 == 3 {
						// Cut short
						text.truncate(text.len() - 3);
					}
					cases.push(Text {
						text,
						masks,
						sort,
						by_env: (i + k + usize::from(sort)) % 2 == 0,
					});
				}
			}
		}
	}
	cases
}

/// Texts of every length up to the longest argument, roughly.
fn long() -> Vec<Text> {
	let mut lengths: Vec<usize> = (8..17).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect();
	lengths.extend([1_000, 4_999, 9_999, 10_000, 10_001, 20_000, 30_000, 50_000, 65_000, 70_000, 80_000, 99_999, 100_000, 100_001, 110_000, 120_000, 130_000, 130_800]);
	let mut cases = Vec::new();
	for (i, length) in lengths.into_iter().enumerate() {
		for kind in 0..7 {
			let bytes = length.saturating_sub(40) / 2;
			let digits = |n: usize| "1A2B3C4D".repeat(n / 4 + 1)[..n * 2].to_owned();
			let text = match kind {
				// One long record, of hex or ASCII
				0 => format!("TC1:{bytes:08X}:h{}", digits(bytes)),
				1 => {
					let s = format!("TC1:{:06X}:a", length.saturating_sub(12));
					let n = length.saturating_sub(12);
					s + &"x".repeat(n)
				}
				// Many, and one at the end that is cut short
				2 | 3 => {
					let mut s = "TC1:02:h1A2B;".repeat(length / 13);
					if kind == 3 && s.len() > 5 {
						s.truncate(s.len() - 2);
					}
					s
				}
				4 => format!("C184{bytes:08X}{}", digits(bytes)),
				5 => "C1021A2B".repeat(length / 8),
				_ => "C1021A2B ".repeat(length / 9) + "C102",
			};
			if !fits(&text) || text.is_empty() {
				continue;
			}
			cases.push(Text {
				text,
				masks: vec!['*'; i % 2],
				sort: (i + kind) % 2 == 0,
				by_env: false,
			});
		}
	}
	cases
}

/// Data of which every value, or all but one or none, is masked.
fn all_masked() -> Vec<Text> {
	let mut cases = Vec::new();
	let tags = ["5A", "50", "57", "C1", "95", "9F26", "9F10", "9F36", "8E", "8A", "9B", "DF8101", "00"];
	for n in 1..=4usize {
		for (i, tag) in tags.iter().enumerate() {
			for size in [1usize, 2, 3, 5, 8, 31] {
				for but in 0..=n {
					for mask in ['*', '0', '.', 'X', '\u{e9}', '\u{7f}'] {
						let mut block = String::new();
						let mut ber = String::new();
						for j in 0..n {
							let tag = if j == 0 { *tag } else { tags[(i + j * 5) % tags.len()] };
							// The one at `but` isn't masked
							let value = match (j == but, mask) {
								(false, m) => m.to_string().repeat(size * 2),
								(true, _) => "1F".repeat(size),
							};
							block += &format!("T{tag}:{size:02X}:h{value};");
							let byte = if j == but { 0x1F } else { u8::try_from(u32::from(mask)).unwrap_or(0x2A) };
							ber += &format!("{tag}{size:02X}{}", format!("{byte:02X}").repeat(size));
						}
						let text = |s: &str| Text {
							text: s.to_owned(),
							masks: vec![mask],
							sort: (i + size + but) % 2 == 0,
							by_env: (i + size + n) % 3 == 0,
						};
						cases.push(text(&block));
						cases.push(text(block.trim_end_matches(';')));
						cases.push(text(&ber));
						cases.push(text(&format!("E1{:02X}{ber}", ber.len() / 2)));
						cases.push(text(&block.replace(":h", ":a")));
					}
				}
			}
		}
	}
	// Nothing to see
	for (i, tag) in tags.iter().enumerate() {
		for n in 1..=3 {
			for block in [format!("T{tag}:00:h;").repeat(n), format!("T{tag}:00:a;").repeat(n), format!("T{tag}:0:h;").repeat(n), format!("{tag}00").repeat(n)] {
				cases.push(Text {
					text:   block,
					masks:  vec!['*'; i % 2],
					sort:   n == 2,
					by_env: n == 3,
				});
			}
		}
	}
	cases.retain(|c| c.text.len() < 4000);
	cases
}

/// BER-TLV and Ingenico data the way other programs write it, and with
/// something in front of, within or behind it.
fn dressed() -> Vec<Text> {
	let mut marks: Vec<String> = (1u8..0x7F).map(char::from).filter(|c| !c.is_ascii_hexdigit()).map(String::from).collect();
	marks.extend(DRESS.iter().map(|s| (*s).to_owned()));
	marks.extend("0123456789ABCDEFabcdef".chars().flat_map(|d| [format!("{d}x"), format!("{d}X"), format!("{d}h"), format!("\\x{d}"), d.to_string()]));
	let mut cases = Vec::new();
	let blocks = [
		"0501AA", "501AA0", "5A01AA", "500002AA", "0A0111", "0B02AAAA", "0000", "00000000", "5A", "5A02AA", "5F2A020840", "045A021234", "055A021234", "5A0212349000", "005A00",
		"T5A:01:hAA", "T05:01:aA,T50:00:h", "T5A:01:hAA,X5A:00:a", "T5A:02:hAA", "5A:01:hAA",
	];
	for (i, block) in blocks.iter().enumerate() {
		for (j, mark) in marks.iter().enumerate() {
			for at in 0..=block.len() {
				if at > 4 && at < block.len() && (i + j + at) % 3 > 0 {
					continue;
				}
				cases.push(Text {
					text: format!("{}{mark}{}", &block[..at], &block[at..]),
					masks: vec!['*'],
					sort: (i + j) % 2 == 0,
					by_env: false,
				});
			}
			cases.push(Text {
				text: format!("{mark}{block}{mark}"),
				masks: vec!['*'],
				sort: true,
				by_env: false,
			});
		}
		// Sizes, statuses and the like around it
		if block.len() % 2 == 0 && !block.contains(':') {
			for b in 0..=255u8 {
				for text in [format!("{b:02X}{block}"), format!("{block}{b:02X}"), format!("{:04X}{block}", u16::from(b)), format!("{b:02X}00{block}"), format!("{block}{b:02X}00"), format!("02{block}03{b:02X}")] {
					cases.push(Text {
						text,
						masks: vec!['*'],
						sort: true,
						by_env: false,
					});
				}
			}
		}
	}
	cases
}
const DRESS: &[&str] = &[
	"0x", "0X", "\\x", "\\X", "x'", "X'", "h'", "H\"", "0h", "&h", "&H", "$", "#", "16#", "hex:", "HEX ", "hex(", "data=", "TLV:", "tlv ", "BER ", "ber:", "Ingenico:", "EMV ", "emv=", "DE55:", "F55=",
	"\u{feff}", "\u{200b}", "\u{a0}", "\r\n", "\n\n", "  ", "\t\t", "''", "\"\"", "0000:", "0000  ", "00000000: ", "> ", "< ", "<<", ">>", "-> ", "<- ", "[]", "[0]", "{}", "()", "TT", "T", "T:", "::",
	":a", ":h", ",T", ";;", "9000", "90 00", "6985", "SW9000", "\u{2}", "\u{3}", "\u{1c}", "0d0a", "FF", "00", "ff", "0", "%", "%20", "&#32;", "=", "==", "TAG ", "Tag: 0x",
];

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("dressed", true, &dressed(), check);
	ctx.each("all-masked", true, &all_masked(), check);
	ctx.each("long", true, &long(), check);
	ctx.each("crowds", true, &crowd_cases(), check);
	ctx.random("ingenico", 25_000, || with_settings(ingenico(2)), check);
	ctx.random("valid-ingenico", 15_000, || with_settings(ingenico(0)), check);
	ctx.random("ber", 25_000, || with_settings(ber(1)), check);
	ctx.random("valid-ber", 20_000, || with_settings(ber(0)), check);
	ctx.random("ambiguous", 35_000, || with_settings(ambiguous()), check);
	ctx.random(
		"big",
		2_000,
		|| {
			with_settings(
				prop_oneof![
					vec(gen::rec(20), 10..150).prop_map(|r| encode_ingenico(&r, false)),
					vec(gen::leaf(20), 10..150).prop_map(|o| hex(&encode_block(&o))),
					gen::chain(60).prop_map(|o| hex(&encode_block(&o))),
					// Faultless up to the end
					vec(gen::rec(20), 10..60).prop_map(|r| {
						let mut s = encode_ingenico(&r, false);
						s.pop();
						s
					}),
					vec(gen::leaf(20), 10..60).prop_map(|o| {
						let mut s = hex(&encode_block(&o));
						s.truncate(s.len() - 2);
						s
					}),
				]
				.boxed(),
			)
		},
		check,
	);
	ctx.random(
		"any-text",
		15_000,
		|| {
			with_settings(
				prop_oneof![
					"[ -~]{1,30}",
					"[0-9A-Fa-f]{1,12}",
					"[T0-9:ah;]{1,12}",
					vec(any::<char>(), 1..8).prop_map(String::from_iter),
				]
				.boxed(),
			)
		},
		check,
	);
	ctx.finish(
		"Ingenico and BER-TLV input, valid or edited, text that is valid in both or in neither, \
		 with random masking characters and sorting; data dressed the way other programs write it; blocks of which all values, or all but one, are \
		 masked or empty. Two reference parsers say which format is \
		 due; the answer must be that format's own option's, with the format line before it. \
		 Non-trivial: both reference parsers give a verdict.",
		&["input whose validity the properties leave open (see C03 and C05) is skipped"],
	)
}
