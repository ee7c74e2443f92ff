use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};

use super::c01::{is_tlv, OPTIONS};
use crate::{
	common::*,
	engine::*,
	exec::{self, Inv},
	gen, spec,
	wire::{encode_block, encode_ingenico, hex, Body, Obj, Rec},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	option: String,
	data:   String,
	masks:  Vec<char>,
	sort:   bool,
	colour: String,
}
impl Case {
	fn inv(&self) -> Inv {
		let mut args = vec![format!("--colour={}", self.colour)];
		if is_tlv(&self.option) {
			args.extend(self.masks.iter().map(|m| format!("-m={m}")));
			if !self.sort {
				args.push("--no-sort".to_owned());
			}
		}
		args.push(format!("--{}={}", self.option, self.data));
		Inv::new(args)
	}
}

/// Characters that do something to a terminal or to the order of what's shown.
fn commands(c: char) -> bool {
	c.is_control()
		|| matches!(c, '\u{ad}' | '\u{61c}' | '\u{180e}' | '\u{200b}'..='\u{200f}' | '\u{2028}'..='\u{202e}' | '\u{2060}'..='\u{206f}' | '\u{feff}' | '\u{fff9}'..='\u{fffb}' | '\u{e0000}'..='\u{e007f}')
}
/// Anything but text, line breaks, tabs and (if there may be any) codes for colours.
fn offence(bytes: &[u8], colour: bool) -> Option<String> {
	let Ok(text) = std::str::from_utf8(bytes) else {
		return Some("bytes that aren't UTF-8".to_owned());
	};
	let mut rest = text;
	while let Some(c) = rest.chars().next() {
		if colour && c == '\u{1b}' {
			let end = rest[1..]
				.strip_prefix('[')
				.and_then(|r| r.find(|c: char| !c.is_ascii_digit() && c != ';').filter(|i| r[*i..].starts_with('m')));
			if let Some(i) = end {
				rest = &rest[i + 3..];
				continue;
			}
		}
		if c != '\n' && c != '\t' && commands(c) {
			return Some(format!("the character {:?}", c));
		}
		rest = &rest[c.len_utf8()..];
	}
	None
}
fn check(case: &Case) -> Checked {
	if case.data.is_empty() || !fits(&case.data) {
		return seen(false, "empty or too long");
	}
	let inv = case.inv();
	let out = exec::run(&inv).map_err(Failure::Infra)?;
	classify(&out).map_err(|e| Failure::from(format!("{e}: {}", show(&inv))))?;
	// Notes on how the command line is used, which may quote it
	if out.stderr.starts_with(b"error:") {
		return seen(false, "not an answer");
	}
	let colour = case.colour != "never" && case.colour != "auto";
	for (stream, bytes) in [("output", &out.stdout), ("error", &out.stderr)] {
		if let Some(what) = offence(bytes, colour) {
			return Err(format!("{what} is written to standard {stream}: {}", show(&inv)).into());
		}
	}
	let nontrivial = case.data.chars().any(|c| !c.is_ascii_hexdigit()) || !is_tlv(&case.option) || case.data.len() > 4;
	seen(
		nontrivial,
		match (out.stdout.is_empty(), out.stderr.is_empty()) {
			(false, _) => "breakdown",
			(_, false) => "diagnostic",
			_ => "nothing",
		},
	)
}

const COLOURS: &[&str] = &["never", "auto", "always", "ansi"];
/// What a terminal would act on, as bytes.
const HOSTILE: &[&[u8]] = &[
	b"\x1b", b"\x1b[31m", b"\x1b[2J", b"\x1b[1;1H", b"\x1b]0;x\x07", b"\x1bc", b"\x1b[0m", b"\x1b[8m", b"\x1bP1\x1b\\", b"\x9b31m",
	b"\x9b", b"\r", b"\r\n", b"\n", b"\t", b"\x08\x08", b"\x07", b"\x0e", b"\x7f", b"\x0c", b"\x05", b"\xc2\x85", b"\xc2\x9b", b"\xe2\x80\xae",
	b"\xef\xbb\xbf", b"\xe2\x80\xa8", b"\xff\xfe", b"\x01", b"\x1f", b"\x80",
];
fn hostile(max: usize) -> BoxedStrategy<Vec<u8>> {
	vec(
		prop_oneof![
			5 => select(HOSTILE.to_vec()).prop_map(<[u8]>::to_vec),
			2 => vec(0u8..0x20, 1..4),
			2 => vec(0x20u8..0x7F, 1..6),
			1 => vec(any::<u8>(), 1..20),
			1 => (gen::byte(), 1usize..20).prop_map(|(b, n)| vec![b; n]),
		],
		1..=max,
	)
	.prop_map(|p| p.concat())
	.boxed()
}
/// Values of a size the tag takes, or of any other.
fn sized(tag: Vec<u8>) -> BoxedStrategy<(Vec<u8>, Vec<u8>)> {
	let size = match &tag[..] {
		[0x8A] | [0x5F, 0x30] | [0x9B] => Some(2),
		[0x9C] | [0x9F, 0x39] | [0x9F, 0x35] => Some(1),
		[0x9F, 0x34] | [0x9F, 0x33] => Some(3),
		[0x95] | [0x9F, 0x40] | [0x9F, 0x0D] | [0x9F, 0x0E] | [0x9F, 0x0F] => Some(5),
		[0x9F, 0x10] => Some(32),
		[0x8E] => Some(12),
		_ => None,
	};
	let tag = Just(tag);
	match size {
		None => (tag, hostile(6)).boxed(),
		Some(n) => (tag, hostile(8), prop::bool::weighted(0.9))
			.prop_map(move |(tag, mut v, cut)| {
				if cut {
					let all = v.clone();
					while v.len() < n {
						v.extend(&all);
					}
					v.truncate(n);
				}
				(tag, v)
			})
			.boxed(),
	}
}
fn tagged() -> BoxedStrategy<(Vec<u8>, Vec<u8>)> {
	prop_oneof![
		4 => gen::decoded_tag().prop_flat_map(sized),
		4 => gen::named_tag().prop_flat_map(sized),
		3 => (gen::any_tag(), hostile(8)),
		1 => gen::decoded_tag().prop_flat_map(|t| (Just(t.clone()), gen::valid_value(&t))),
	]
	.boxed()
}
fn around(option: BoxedStrategy<&'static str>, data: BoxedStrategy<String>) -> BoxedStrategy<Case> {
	let masks = prop_oneof![
		2 => Just(vec![]),
		1 => gen::masks(3),
		1 => vec((1u8..0x20).prop_map(char::from), 1..3),
	];
	(option, data, masks, any::<bool>(), select(COLOURS))
		.prop_map(|(option, data, masks, sort, colour)| Case {
			option: option.to_owned(),
			data: data.replace('\0', ""),
			masks,
			sort,
			colour: colour.to_owned(),
		})
		.boxed()
}
fn tlv_cases() -> BoxedStrategy<Case> {
	let ber = (vec(tagged(), 1..4), any::<bool>()).prop_map(|(list, wrap)| {
		let mut objs: Vec<Obj> = list.iter().map(|(t, v)| Obj::bytes(t, v)).collect();
		if wrap {
			objs = vec![Obj {
				tag:  vec![0x70].into(),
				form: 0,
				body: Body::Kids(objs),
			}];
		}
		hex(&encode_block(&objs))
	});
	let ingenico = (vec((tagged(), any::<bool>(), gen::kind(), gen::separator()), 1..4), any::<bool>()).prop_map(|(list, last)| {
		let recs: Vec<Rec> = list
			.into_iter()
			.map(|((tag, mut value), ascii, kind, separator)| {
				if ascii {
					value.iter_mut().for_each(|b| *b = (*b & 0x7F).max(1));
				}
				Rec {
					kind,
					tag: tag.into(),
					len_bytes: 0,
					ascii,
					value: value.into(),
					lower_case: 0,
					separator,
				}
			})
			.collect();
		encode_ingenico(&recs, last)
	});
	prop_oneof![
		around(select(vec!["ber-tlv", "auto-tlv"]).boxed(), ber.boxed()),
		around(select(vec!["ingenico-tlv", "auto-tlv"]).boxed(), ingenico.boxed()),
	]
	.boxed()
}
/// Text itself that a terminal would act on, for every option.
fn text_cases() -> BoxedStrategy<Case> {
	let piece = || {
		prop_oneof![
			3 => select(HOSTILE.to_vec()).prop_map(text),
			2 => (1u8..0x20).prop_map(|b| char::from(b).to_string()),
			1 => select(vec!["\u{202e}", "\u{2066}", "\u{feff}", "\u{85}", "\u{9b}31m", "\u{200b}", "\u{e0041}"]).prop_map(str::to_owned),
			2 => "[0-9A-F]{1,8}",
			1 => "[ -~]{1,6}",
		]
	};
	let texts = (vec(piece(), 0..4), prop_oneof![
		2 => Just(String::new()),
		1 => gen::leaf(10).prop_map(|o| hex(&encode_block(&[o]))),
		1 => gen::recs(2, 10).prop_map(|r| encode_ingenico(&r, false)),
		1 => select(vec![5usize, 2, 3, 12, 32]).prop_flat_map(gen::bytes_of).prop_map(|v| hex(&v)),
		1 => (0u16..1_200).prop_map(|n| n.to_string()),
	], vec(piece(), 0..4))
		.prop_map(|(a, b, c)| format!("{}{b}{}", a.concat(), c.concat()));
	around(select(OPTIONS).boxed(), texts.boxed())
}
/// Every byte in values of every registered tag that takes it.
fn byte_cases() -> Vec<Case> {
	let mut cases = Vec::new();
	for b in 0..=255u8 {
		for len in [1usize, 2, 3, 5, 17, 32] {
			let mut objs: Vec<Obj> = spec::TAGS
				.iter()
				.map(|(t, _)| *t)
				.chain([&[0xC1u8][..], &[0xE1], &[0x1F, 0x01]])
				.map(|t| (t, vec![b; len]))
				.chain([(&[0x8Au8][..], vec![b'0', b]), (&[0x8A], vec![b, b'0']), (&[0x8A], vec![0x1B, b])])
				.filter(|(t, v)| spec::admits(t, v) == Some(true))
				.map(|(t, v)| Obj::bytes(t, &v))
				.collect();
			for (n, v) in [(5, vec![b; 5]), (12, vec![b; 12]), (32, vec![b; 32])] {
				objs.extend(spec::DECODED_TAGS.iter().filter(|t| n != len && spec::admits(t, &v) == Some(true)).map(|t| Obj::bytes(t, &v)));
			}
			cases.push(Case {
				option: "ber-tlv".to_owned(),
				data:   hex(&encode_block(&objs)),
				masks:  vec![gen::UNUSED_MASK],
				sort:   true,
				colour: COLOURS[(len + usize::from(b)) % 4].to_owned(),
			});
			// (NUL can't be in an argument)
			if b == 0 {
				continue;
			}
			let recs: Vec<Rec> = objs
				.iter()
				.map(|o| Rec {
					kind: 'T',
					tag: o.tag.clone(),
					len_bytes: 0,
					ascii: b < 0x80,
					value: o.value().into(),
					lower_case: 0,
					separator: if b < 0x80 { char::from(b) } else { ';' },
				})
				.collect();
			cases.push(Case {
				option: "ingenico-tlv".to_owned(),
				data:   encode_ingenico(&recs, true),
				masks:  vec![gen::UNUSED_MASK],
				sort:   true,
				colour: COLOURS[len % 4].to_owned(),
			});
		}
		if b > 0 && b < 0x80 {
			let c = char::from(b).to_string();
			for option in OPTIONS {
				for data in [c.clone(), format!("{c}{c}"), format!("12{c}"), format!("{c}T5A:01:a{c}"), format!("T{c}"), format!("T5A:{c}"), format!("T5A:01:{c}")] {
					cases.push(Case {
						option: (*option).to_owned(),
						data,
						masks: vec![],
						sort: true,
						colour: COLOURS[usize::from(b) % 4].to_owned(),
					});
				}
			}
		}
	}
	cases
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("every-byte", true, &byte_cases(), check);
	ctx.random("tlv", 60_000, tlv_cases, check);
	ctx.random("texts", 40_000, text_cases, check);
	ctx.finish(
		"Values made of control characters, terminal sequences (7-bit, 8-bit and UTF-8), bidirectional \
		 and invisible characters and random bytes, of the size the tag takes and of others, under \
		 decoded, named and unknown tags, in BER-TLV and Ingenico (hex and ASCII); text made of them for \
		 every option; such masking characters; every byte under every registered tag that takes it. With \
		 every colour setting. Both streams have to be UTF-8 without control or invisible characters but \
		 line breaks and tabs, and colour codes where colour's on. Non-trivial: an answer to more than \
		 two bytes, or to something other than hex digits.",
		&["notes on a wrong command line, which quote it, aren't judged"],
	)
}
