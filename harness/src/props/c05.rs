use proptest::{collection::vec, prelude::*, sample::{select, Index}};
use serde::{Deserialize, Serialize};

use crate::{
	common::*,
	display::{parse_tlv, same_structure},
	engine::*,
	gen,
	spec::Diag,
	wire::{encode_ingenico, hex, parse_ingenico, Bad, Rec},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
	text:  String,
	masks: Vec<char>,
}

fn check(case: &Text) -> Checked {
	if case.text.is_empty() || !fits(&case.text) {
		return seen(false, "empty or too long");
	}
	let inv = tlv("ingenico-tlv", &case.text, &case.masks, false);
	match parse_ingenico(&case.text, &case.masks) {
		Err(Bad::Undetermined) => seen(false, "not determined"),
		Err(Bad::NonCompliant) => {
			refused_as(&inv, &Diag::NonCompliant)?;
			seen(true, "faulty")
		}
		Err(Bad::Unsupported) => {
			refused_as(&inv, &Diag::Unsupported)?;
			seen(true, "more than four length bytes")
		}
		Err(Bad::Either) => match refusal(&inv)? {
			Diag::NonCompliant | Diag::Unsupported => {
				seen(true, "more than four length bytes, cut short")
			}
			d => Err(format!("refused as {d:?}: {}", show(&inv)).into()),
		},
		Ok(nodes) if !admitted(&nodes) => seen(false, "a decoded tag refuses its value"),
		Ok(nodes) => {
			let out = breakdown(&inv)?;
			let shown = at(&inv, parse_tlv(&out))?;
			at(&inv, same_structure(&nodes, &shown))?;
			seen(!nodes.is_empty(), "faultless")
		}
	}
}

/// Fields of one record, any of which may be faulty.
fn faulty_record() -> BoxedStrategy<String> {
	let tag = prop_oneof![
		4 => gen::any_tag().prop_map(|t| hex(&t)),
		1 => Just(String::new()),
		1 => "[0-9A-F]{1,7}",
		1 => "[0-9A-Za-z ]{1,4}",
		1 => "00[0-9A-F]{1,5}",
	];
	let length = prop_oneof![
		4 => (0u8..8).prop_map(|n| format!("{n:02X}")),
		1 => "[0-9A-F]{1,3}",
		1 => "0{0,9}[0-9A-F]{1,3}",
		1 => "[0-9A-Ga-g +-]{1,4}",
		1 => "[0-9A-F]{8,12}",
	];
	let format = prop_oneof![
		5 => select(vec!["a", "h"]),
		1 => select(vec!["", "A", "H", "b", "x", "T", ":", " ", "0", "aa", "ha"]),
	];
	let value = prop_oneof![
		4 => vec(any::<u8>(), 0..8).prop_map(|v| hex(&v)),
		2 => "[ -~]{0,8}",
		1 => "[0-9a-fG*\\- ]{0,16}",
		1 => "\\*{0,16}",
	];
	(gen::kind(), tag, length, format, value)
		.prop_map(|(k, t, l, f, v)| format!("{k}{t}:{l}:{f}{v}"))
		.boxed()
}
fn faulty() -> BoxedStrategy<Text> {
	(
		prop_oneof![Just(vec![]), gen::recs(3, 20)],
		faulty_record(),
		prop_oneof![Just(vec![]), gen::recs(2, 20)],
		prop_oneof![Just(vec!['*']), gen::masks(2)],
	)
		.prop_map(|(before, record, after, masks)| {
			let mut text = encode_ingenico(&before, true);
			text.push_str(&record);
			if !after.is_empty() {
				text.push(';');
				text.push_str(&encode_ingenico(&after, false));
			}
			Text { text, masks }
		})
		.boxed()
}
/// One fault in otherwise valid records, at a known place.
fn one_fault() -> BoxedStrategy<Text> {
	(
		gen::recs(5, 40),
		any::<Index>(),
		0u8..12,
		any::<Index>(),
		select(vec!['g', 'G', ' ', '-', '+', '*', ':', '\u{e9}', '\u{661}', '/', '@', '`', 'x']),
	)
		.prop_map(|(recs, which, fault, place, c)| {
			let which = which.index(recs.len());
			let mut text = String::new();
			for (i, r) in recs.iter().enumerate() {
				let mut one = String::new();
				r.write(&mut one);
				if i == which {
					one = break_record(r, &one, fault, place, c);
				}
				text.push_str(&one);
				if i + 1 < recs.len() {
					text.push(r.separator);
				}
			}
			Text {
				text,
				masks: vec!['*'],
			}
		})
		.boxed()
}
fn break_record(r: &Rec, one: &str, fault: u8, place: Index, c: char) -> String {
	let mut fields: Vec<String> = one.splitn(3, ':').map(str::to_owned).collect();
	if r.kind == ':' || fields.len() < 3 {
		return one.to_owned();
	}
	let set = |s: &str, from: usize| -> String {
		let chars: Vec<char> = s.chars().collect();
		if chars.len() <= from {
			return s.to_owned();
		}
		let i = from + place.index(chars.len() - from);
		chars
			.iter()
			.enumerate()
			.map(|(j, o)| if i == j { c } else { *o })
			.collect()
	};
	match fault {
		0 => fields[0] = set(&fields[0], 1),
		1 => fields[1] = set(&fields[1], 0),
		2 => fields[2] = set(&fields[2], 1),
		3 => fields[0].truncate(1),
		4 => {
			fields[0].pop();
		}
		5 => {
			fields[1].pop();
		}
		6 => fields[2] = format!("{}{}", c, &fields[2][1..]),
		7 => {
			fields[2].pop();
		}
		8 => fields[1] = format!("00000000{}", fields[1]),
		9 => {
			return fields[0].clone();
		}
		10 => {
			return format!("{}:{}", fields[0], fields[1]);
		}
		_ => {
			return format!("{}:{}:", fields[0], fields[1]);
		}
	}
	fields.join(":")
}
/// A declared length that isn't the value's, by any amount up to the most a
/// length can say: narrower arithmetic would take many of them for the value's.
fn claims() -> BoxedStrategy<Text> {
	let off = prop_oneof![
		3 => select((4u32..33).map(|b| 1u64 << b).collect::<Vec<_>>()),
		3 => (select((4u32..33).map(|b| 1u64 << b).collect::<Vec<_>>()), 0u64..12).prop_map(|(p, n)| p - n),
		1 => 1u64..40,
		1 => any::<u32>().prop_map(u64::from),
	];
	(
		prop_oneof![Just(vec![]), gen::recs(3, 20)],
		gen::kind(),
		gen::any_tag(),
		any::<bool>(),
		vec(0x30u8..0x3A, 0..30),
		off,
		0usize..6,
		prop_oneof![Just(vec![]), gen::recs(3, 20)],
	)
		.prop_map(|(before, kind, tag, ascii, value, off, len_bytes, after)| {
			let declared = value.len() as u64 + off;
			let mut digits = format!("{declared:X}");
			if digits.len() % 2 == 1 {
				digits.insert(0, '0');
			}
			while digits.len() < len_bytes * 2 {
				digits.insert_str(0, "00");
			}
			let mut text = encode_ingenico(&before, true);
			text.push_str(&format!(
				"{kind}{}:{digits}:{}{}",
				hex(&tag),
				if ascii { 'a' } else { 'h' },
				if ascii { String::from_utf8_lossy(&value).into_owned() } else { hex(&value) }
			));
			if !after.is_empty() {
				text.push(';');
				text.push_str(&encode_ingenico(&after, false));
			}
			Text {
				text,
				masks: vec!['*'],
			}
		})
		.boxed()
}
fn edited() -> BoxedStrategy<Text> {
	(
		gen::recs(4, 40),
		any::<bool>(),
		vec(gen::edit(), 1..3),
		prop_oneof![Just(vec!['*']), gen::masks(2)],
	)
		.prop_map(|(recs, last, edits, masks)| {
			let mut v = encode_ingenico(&recs, last).into_bytes();
			edits.iter().for_each(|e| gen::apply(e, &mut v));
			v.retain(|b| *b != 0);
			Text {
				text: String::from_utf8_lossy(&v).into_owned(),
				masks,
			}
		})
		.boxed()
}
/// Each kind of fault among any number of records.
fn among_many() -> Vec<Text> {
	let faults = [
		"", "T", "T5A", "T5A:", "T5A:01", "T5A:01:", "T5A:01:h", "T5A:01:h1", "T5A:01:hXX", "T5A:01:x12", "T5:01:h12", "T:01:h12",
		"TXX:01:h12", "T5A:0:h12", "T5A:XX:h12", "T5A:02:h12", "C5A:01:h1", "C5A:01:hXX", "C5A:02:aA", "CXX:01:h12", "T5A:01:a",
		"T5A:0100000000:h12", "T5A:0000000001:h12", "T5A:01:a\u{e9}", "T5A:01:h**", "C5A:01:q12",
	];
	let fillers = ["T5A:00:h", "T9F02:01:h30", "C5A:01:aA", "T50:03:aABC", "T70:02:h5A00", "D9A:02:h**FF", "T9A:01:h**"];
	let mut cases = Vec::new();
	for (k, (n, at)) in crowds().into_iter().enumerate() {
		for (i, fault) in faults.iter().enumerate() {
			// (an odd number of fillers and faults makes every pair)
			if (i + k) % 3 != 0 && n > 12 {
				continue;
			}
			let filler = fillers[(i + k) % fillers.len()];
			let filler = if filler.starts_with('D') { "D9A:02:hABFF" } else { filler };
			let mut recs = vec![filler; n];
			if !fault.is_empty() {
				recs.insert(at, fault);
			}
			let text = recs.join(if (i + k) % 2 == 0 { "," } else { ";" });
			if !text.is_empty() {
				cases.push(Text { text, masks: vec!['*'] });
			}
		}
	}
	cases
}
fn short_strings(thorough: bool) -> Vec<Text> {
	let alphabet = ['T', '0', '1', ':', 'a', 'h'];
	let n = alphabet.len();
	let mut cases = Vec::new();
	let mut add = |text: String| {
		cases.push(Text {
			text,
			masks: vec!['*'],
		});
	};
	for len in 1..=if thorough { 7 } else { 5u32 } {
		for mut i in 0..n.pow(len) {
			let mut s = String::new();
			for _ in 0..len {
				s.push(alphabet[i % n]);
				i /= n;
			}
			add(s);
		}
	}
	// Every continuation of a record's start
	let endings = ['0', '1', 'F', ':', 'a', 'h', '*', 'G'];
	let n = endings.len();
	for len in 0..=if thorough { 6 } else { 4u32 } {
		for mut i in 0..n.pow(len) {
			let mut s = String::from("T5A:01:");
			for _ in 0..len {
				s.push(endings[i % n]);
				i /= n;
			}
			add(s);
		}
	}
	cases
}

/// Characters that aren't ASCII, in every place of a record.
fn not_ascii() -> Vec<Text> {
	let ranges = [
		0x80..0x250u32, 0x2B0..0x370, 0x660..0x66A, 0x6F0..0x6FA, 0x966..0x970, 0x1680..0x1681, 0x2000..0x2070, 0x2070..0x20A0,
		0x2150..0x2190, 0x2212..0x2216, 0x2500..0x2504, 0x3000..0x3004, 0xFE50..0xFE70, 0xFEFF..0xFF00, 0xFF01..0xFF66, 0xFFFC..0xFFFE,
		0x1D7CE..0x1D7D8, 0x1F4B3..0x1F4B4, 0x10_FFFF..0x11_0000,
	];
	let mut cases = Vec::new();
	for c in ranges.into_iter().flatten().filter_map(char::from_u32) {
		for text in [
			format!("T5A:01:h11{c}T5A:00:h"),
			format!("T5A:01:h11{c}"),
			format!("{c}T5A:01:h11"),
			format!("{c}5A:01:h11"),
			format!("T5{c}:01:h11"),
			format!("T5A{c}01:h11"),
			format!("T5A:01{c}h11"),
			format!("T5A:01:{c}11"),
			format!("T50:01:a{c}"),
			format!("T50:02:a{c}"),
			format!("T5A:01:h{c}{c}"),
			format!("T5A:01:h1{c}"),
			format!("I5A:01:a{c},T5A:01:h11"),
			format!("T5A:01:h11,T5A: 01:h11{c}").replace(' ', ""),
		] {
			cases.push(Text { text, masks: vec!['*'] });
		}
	}
	cases
}

/// Records within pairs of characters.
fn framed() -> Vec<Text> {
	let control: Vec<char> = (1..0x20u8).chain([0x7F]).map(char::from).collect();
	let mut pairs: Vec<(String, String)> = Vec::new();
	for a in &control {
		for b in &control {
			pairs.push((a.to_string(), b.to_string()));
		}
	}
	for c in (0x20..0x7Fu8).map(char::from) {
		pairs.push((c.to_string(), c.to_string()));
		for s in [";", ",", ":", "\n", "\r\n", "\u{3}", "\u{4}"] {
			pairs.push((c.to_string(), s.to_owned()));
		}
	}
	for (a, b) in [
		("(", ")"), ("[", "]"), ("{", "}"), ("<", ">"), ("<<", ">>"), ("\u{ab}", "\u{bb}"), ("\u{201c}", "\u{201d}"), ("\u{2018}", "\u{2019}"),
		("`", "'"), ("``", "''"), ("\"\"\"", "\"\"\""), ("/*", "*/"), ("<!--", "-->"), ("<tlv>", "</tlv>"), ("[\"", "\"]"), ("{\"data\":\"", "\"}"),
		("\u{feff}", ""), ("$'", "'"), ("data=", ""), ("tlv:", ""), ("DATA:", ";"), ("b'", "'"), ("b\"", "\""), ("\\x02", "\\x03"), ("<STX>", "<ETX>"),
		("[STX]", "[ETX]"), ("^", "?"), ("%", "?"), (";", "?"), ("#", "#"), ("--", "--"), ("- ", ""), ("> ", ""), ("$ ", ""), ("0x", ""), ("A:", ";"), ("h", ""), ("T", ""),
	] {
		pairs.push((a.to_owned(), b.to_owned()));
	}
	let mut cases = Vec::new();
	for (i, (a, b)) in pairs.iter().enumerate() {
		let recs = ["T50:01:h41", "T9F1E:02:aAB,C50:01:h41", "T70:04:h5A0112C1"][i % 3];
		for text in [format!("{a}{recs}{b}"), format!("{a}{recs}"), format!("{recs}{b}"), format!("{a}T50:01:h41{b},{a}T5A:01:h11{b}"), format!("T50:01:h41,{a}T5A:01:h11{b}"), format!("T50:01:{a}h41{b}"), format!("{a}T50{b}:{a}01{b}:{a}h41{b}"), format!("T50:02:a{a}A{b}")] {
			cases.push(Text { text, masks: vec!['*'] });
		}
	}
	cases
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("framed", true, &framed(), check);
	ctx.each("not-ascii", true, &not_ascii(), check);
	ctx.each("short-strings", true, &short_strings(ctx.thorough), check);
	ctx.each("among-many", true, &among_many(), check);
	ctx.random("one-fault", 60_000, one_fault, check);
	ctx.random("faulty-fields", 50_000, faulty, check);
	ctx.random("claims", 20_000, claims, check);
	ctx.random("edited", 40_000, edited, check);
	ctx.finish(
		"Records with one fault put in a known field, with fields that are each randomly faulty, \
		 with a declared length that is off by anything up to 2^32, and with 1-2 random edits; every string of up to 5 characters over the structural \
		 alphabet every short continuation of a record, characters that aren't ASCII at every place of a record, and records within pairs of characters. The verdict, the kind of diagnostic \
		 and (if accepted) the structure are compared with a reference parser. Non-trivial: the \
		 reference parser gives a verdict and no decoded tag refuses its value.",
		&[
			"an empty length field is outside the property",
			"more than four length bytes without anything after them may be either diagnostic",
		],
	)
}
