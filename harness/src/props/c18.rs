use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};

use crate::{
	company,
	common::*,
	engine::*,
	gen,
	spec::{self, Decoded, Diag},
	wire::{encode_ingenico, hex, Hex, Obj, Rec},
};

/// Options and what size they need.
const OPTIONS: &[(&str, usize)] = &[("tvr", 5), ("ccd-cvr", 5), ("tsi", 2), ("cvm-results", 3), ("cvm-list", 0)];
/// Tags and what size they need. (none: a CVM List, with a minimum)
const SIZED: &[(&[u8], usize)] = &[
	(&[0x95], 5),
	(&[0x9B], 2),
	(&[0x9F, 0x0D], 5),
	(&[0x9F, 0x0E], 5),
	(&[0x9F, 0x0F], 5),
	(&[0x9F, 0x33], 3),
	(&[0x9F, 0x40], 5),
	(&[0x9F, 0x34], 3),
	(&[0x8E], 0),
	(&[0x5F, 0x30], 2),
	(&[0x8A], 2),
	(&[0x9C], 1),
	(&[0x9F, 0x39], 1),
	(&[0x9F, 0x35], 1),
];

/// The diagnostic due for this size, if one is.
fn due(needed: usize, found: usize) -> Option<Diag> {
	match needed {
		0 if found < 8 => Some(spec::at_least(8, found)),
		0 => (found % 2 != 0).then_some(Diag::Components),
		n => (n != found).then(|| spec::exactly(n, found)),
	}
}
fn class(d: &Diag) -> &'static str {
	match d {
		Diag::Components => "no whole rules",
		Diag::Count(b, ..) if b == "exactly" => "wrong fixed size",
		_ => "below the minimum",
	}
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Single {
	option: usize,
	value:  Hex,
}
fn check_single(case: &Single) -> Checked {
	let (option, needed) = OPTIONS[case.option % OPTIONS.len()];
	// (an argument of only non-digits is a value of no bytes)
	let text = if case.value.is_empty() { "-/".to_owned() } else { hex(&case.value) };
	let inv = single(option, &text);
	if let Some(d) = due(needed, case.value.len()) {
		refused_as(&inv, &d)?;
		return seen(true, class(&d));
	}
	// The right size isn't refused as a wrong one
	match answer(&inv)? {
		Answer::Diagnostic(text) => match Diag::of(&text) {
			Some(d @ (Diag::Count(..) | Diag::Components)) => {
				Err(format!("a value of the right size is refused as {d:?}: {}", show(&inv)).into())
			}
			_ => seen(true, "right size, refused otherwise"),
		},
		_ => seen(true, "right size"),
	}
}
fn check_identify(case: &Single) -> Checked {
	let inv = single("identify", &String::from_utf8_lossy(&case.value));
	refused_as(&inv, &spec::at_least(1, 0))?;
	seen(true, "no tag to identify")
}

/// A block with a value of the wrong size in it.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Block {
	ingenico: bool,
	sort:     bool,
	before:   Vec<Obj>,
	tag:      Hex,
	value:    Hex,
	after:    Vec<Obj>,
	/// Tags of the objects it's all within; siblings there before and after.
	within:   Vec<(Hex, bool, bool)>,
}
fn check_block(case: &Block) -> Checked {
	let refused = |tag: &[u8], value: &[u8]| match spec::decode(tag, value) {
		Decoded::Refused(d) => Some(d),
		_ => None,
	};
	let Some(d) = refused(&case.tag, &case.value) else {
		return seen(false, "right size");
	};
	if !matches!(d, Diag::Count(..) | Diag::Components) {
		return seen(false, "refused otherwise");
	}
	let mut objs = case.before.clone();
	objs.push(Obj::bytes(&case.tag, &case.value));
	objs.extend(case.after.iter().cloned());
	for (tag, before, after) in &case.within {
		let mut value = Vec::new();
		objs.iter().for_each(|o| o.encode(&mut value));
		objs = vec![Obj::bytes(tag, &value)];
		if *before {
			objs.insert(0, Obj::bytes(&[0x9A], &[0x25, 1, 2]));
		}
		if *after {
			objs.push(Obj::bytes(&[0x95], &[0; 5]));
		}
	}
	let masks = [gen::UNUSED_MASK];
	let inv = if case.ingenico {
		let recs: Vec<Rec> = objs
			.iter()
			.map(|o| Rec {
				kind: 'T',
				tag: o.tag.clone(),
				len_bytes: 0,
				ascii: false,
				value: o.value().into(),
				lower_case: 0,
				separator: ',',
			})
			.collect();
		tlv("ingenico-tlv", &encode_ingenico(&recs, false), &masks, case.sort)
	} else {
		let mut bytes = Vec::new();
		objs.iter().for_each(|o| o.encode(&mut bytes));
		ber(&bytes, &masks, case.sort)
	};
	if inv.args.iter().any(|a| !fits(a)) {
		return seen(false, "too long");
	}
	refused_as(&inv, &d)?;
	seen(true, class(&d))
}

/// A value written with other characters between and instead of digits.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
	option: usize,
	text:   String,
}
fn check_text(case: &Text) -> Checked {
	let (option, needed) = OPTIONS[case.option % OPTIONS.len()];
	let found = case.text.chars().filter(char::is_ascii_hexdigit).count() / 2;
	if case.text.is_empty() || case.text.contains('\0') || !fits(&case.text) {
		return seen(false, "can't be given");
	}
	let inv = single(option, &case.text);
	match due(needed, found) {
		Some(d) => {
			refused_as(&inv, &d)?;
			seen(true, if found == 0 { "no digits" } else { class(&d) })
		}
		None => match answer(&inv)? {
			Answer::Diagnostic(text) => match Diag::of(&text) {
				Some(d @ (Diag::Count(..) | Diag::Components)) => Err(format!("a value of the right size is refused as {d:?}: {}", show(&inv)).into()),
				_ => seen(true, "right size, refused otherwise"),
			},
			_ => seen(true, "right size"),
		},
	}
}
fn texts() -> Vec<Text> {
	let mut cases = Vec::new();
	let chars: Vec<char> = (1u8..0x7F).map(char::from).filter(|c| !c.is_ascii_hexdigit()).chain("\u{a0}\u{e9}\u{200b}\u{ff11}\u{1f4b3}".chars()).collect();
	let mut add = |text: String| {
		for option in 0..OPTIONS.len() {
			cases.push(Text { option, text: text.clone() });
		}
	};
	for (i, c) in chars.iter().enumerate() {
		for n in (1..=24).chain([31, 32, 33, 40, 63, 64, 65, 100, 255, 256, 257, 1_000]) {
			// (all lengths with some of them)
			if i % 5 == n % 5 || n < 13 {
				add(c.to_string().repeat(n));
			}
			if i % 7 == n % 7 {
				add(c.to_string().repeat(n) + "7");
				add(format!("{}A0{}", c.to_string().repeat(n), c.to_string().repeat(n / 2)));
				add("5".to_owned() + &c.to_string().repeat(n));
			}
		}
	}
	// Fewer and more digits than are due, in texts of any length
	for found in 0..=14usize {
		for len in 1..=60usize {
			for c in ['x', ' ', '-', 'G'] {
				let digits = "8000120A0".bytes().cycle().take(found).map(char::from);
				let mut text: Vec<char> = vec![c; len];
				digits.enumerate().take(len).for_each(|(i, d)| text[i * len / found.max(1)] = d);
				add(text.into_iter().collect());
			}
		}
	}
	for word in ["null", "none", "nothing", "zero", "x", "xyz", "hello", "no, no, no!", "--", "???", "n/s", "http://", "zz:zz:zz:zz:zz", "gg gg gg gg gg", "ii ii", "0x", "0xZZ", "h'zz'", "\\x\\x\\x\\x\\x"] {
		add(word.to_owned());
		add(word.to_uppercase());
		add(word.repeat(5));
	}
	cases
}

fn fill(len: usize, seed: usize) -> Vec<u8> {
	match seed % 3 {
		0 => vec![0; len],
		1 => (0..len).map(|i| (i * 37 + seed) as u8 % 10).collect(),
		_ => (0..len).map(|i| (i * 151 + seed * 7 + 13) as u8).collect(),
	}
}
fn lengths(thorough: bool) -> Vec<usize> {
	let mut l: Vec<usize> = (0..=300).collect();
	for n in 0..=13usize {
		l.extend([256 + n, 512 + n, 1024 + n, 4096 + n, 8192 + n]);
	}
	if thorough {
		l.extend(300..2200);
		// As long as an argument can be
		l.extend((0..=12).map(|n| 32768 + n));
		l.extend((0..=12).map(|n| 49152 + n));
	}
	l.sort_unstable();
	l.dedup();
	l
}
fn every_size(thorough: bool) -> Vec<Single> {
	let mut cases = Vec::new();
	for option in 0..OPTIONS.len() {
		for len in lengths(thorough) {
			for seed in [0, 1, 2] {
				cases.push(Single {
					option,
					value: fill(len, seed + len % 5 * 3).into(),
				});
			}
		}
	}
	cases
}
fn no_tags() -> Vec<Single> {
	["-", "zz", " ", "9", "x9", "F", "\u{ff11}\u{ff12}", "g-h", "  a ", "-_-", "\u{1F4B3}"]
		.iter()
		.map(|t| Single {
			option: 0,
			value:  t.as_bytes().to_vec().into(),
		})
		.collect()
}
fn every_size_in_tlv(thorough: bool) -> Vec<Block> {
	let mut cases = Vec::new();
	for (i, (tag, _)) in SIZED.iter().enumerate() {
		for len in lengths(thorough) {
			if !thorough && len > 70 && len % 256 > 20 {
				continue;
			}
			for ingenico in [false, true] {
				for nested in 0..3usize {
					cases.push(Block {
						ingenico,
						sort: (len + nested) % 2 == 0,
						before: if nested == 1 { vec![Obj::bytes(&[0x9A], &[1, 2, 3])] } else { vec![] },
						tag: tag.to_vec().into(),
						value: fill(len, i + len + nested).into(),
						after: if nested == 2 { vec![Obj::bytes(&[0x5A], &[1, 2, 3])] } else { vec![] },
						within: [(vec![0x70u8], true, false), (vec![0xBF, 0x0C], false, true), (vec![0xE1], true, true)]
							[..nested + (len % 2) * nested / 2]
							.iter()
							.map(|(t, b, a)| (t.clone().into(), *b, *a))
							.collect(),
					});
				}
			}
		}
	}
	cases
}

/// ASCII values of as many characters as fit, and more than fit into two bytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Vast {
	tag:  Hex,
	fill: char,
	len:  usize,
}
fn check_vast(case: &Vast) -> Checked {
	let value = case.fill.to_string().repeat(case.len);
	let Decoded::Refused(d) = spec::decode(&case.tag, value.as_bytes()) else {
		return seen(false, "right size");
	};
	if !matches!(d, Diag::Count(..) | Diag::Components) {
		return seen(false, "refused otherwise");
	}
	let text = format!("T{}:{:08X}:a{value}", hex(&case.tag), case.len);
	if !fits(&text) {
		return seen(false, "too long");
	}
	refused_as(&tlv("ingenico-tlv", &text, &[gen::UNUSED_MASK], true), &d)?;
	seen(true, class(&d))
}
fn vast(thorough: bool) -> Vec<Vast> {
	let mut cases = Vec::new();
	for (tag, needed) in SIZED {
		for base in [1usize << 16, 1 << 15, 3 << 15, 100_000] {
			let lens = if thorough { (0..14).collect() } else { vec![*needed, needed + 1, 8, 10, 9] };
			for n in lens {
				for fill in ['0', '1', '\x01'] {
					cases.push(Vast {
						tag: tag.to_vec().into(),
						fill,
						len: base + n,
					});
				}
			}
		}
	}
	cases
}

/// Values that are right, but for something else.
fn of_others() -> BoxedStrategy<Vec<u8>> {
	let other = prop_oneof![
		4 => select(SIZED.to_vec()).prop_flat_map(|(t, _)| gen::valid_value(t)),
		2 => gen::ccd_iad(),
		1 => gen::cvm_list(6),
		1 => gen::leaf(8).prop_map(|o| crate::wire::encode_block(&[o])),
	];
	// as it is, a part of it, two joined, or padded
	(other.clone(), other, 0u8..8, any::<prop::sample::Index>())
		.prop_map(|(a, b, how, at)| match how {
			0..=3 => a,
			4 => a[..at.index(a.len() + 1)].to_vec(),
			5 => [a, b].concat(),
			6 => [vec![0; at.index(4)], a].concat(),
			_ => [a, vec![0; at.index(4)]].concat(),
		})
		.boxed()
}

/// Right values written another way: as text, packed, padded, prefixed, doubled,
/// without what goes without saying.
fn rewritten() -> Vec<(usize, Vec<u8>)> {
	const RIGHT: &[(usize, &[&[u8]])] = &[
		(0, &[&[0; 5], &[0x80, 0x80, 0x80, 0, 0], b"12345", &[0x25; 5]]),
		(1, &[&[0xE8, 0], &[0, 0], b"05"]),
		(2, &[&[0; 5], &[0xFC, 0x50, 0xAC, 0x88, 0]]),
		(3, &[&[0; 5], &[0x04, 0, 0, 0, 0]]),
		(4, &[&[0; 5], &[0xF8; 5]]),
		(5, &[&[0xE0, 0xB8, 0xC8], &[0; 3]]),
		(6, &[&[0xF0, 0, 0xF0, 0xA0, 0x01], &[0; 5]]),
		(7, &[&[0x1F, 0, 0], &[0x42, 3, 2], &[0x1E, 3, 1]]),
		(8, &[&[0; 8], &[0, 0, 0, 0, 0, 0, 0, 0, 0x1F, 0], b"00000000"]),
		(9, &[&[0x02, 0x01], &[0x01, 0x20], &[0, 0], &[0x09, 0x99], b"20"]),
		(10, &[b"00", b"05", b"Y1", b"Z3", b"51"]),
		(11, &[&[0], &[0x09], &[0x20], b"0"]),
		(12, &[&[0x05], &[0x07], &[0x91], &[0], b"5"]),
		(13, &[&[0x22], &[0x14], &[0x36], b"2"]),
	];
	let mut cases = Vec::new();
	for (which, values) in RIGHT {
		for v in *values {
			let text = hex(v);
			let number: u64 = v.iter().take(7).fold(0, |n, b| n << 8 | u64::from(*b));
			let mut forms: Vec<Vec<u8>> = vec![
				text.clone().into_bytes(),
				text.to_lowercase().into_bytes(),
				text.trim_start_matches('0').as_bytes().to_vec(),
				number.to_string().into_bytes(),
				format!("0x{text}").into_bytes(),
				v.iter().flat_map(|b| [b >> 4, b & 15]).collect(),
				v.iter().flat_map(|b| format!("{b:08b}").into_bytes()).collect(),
				text.chars().map(|c| format!("{c} ")).collect::<String>().into_bytes(),
				v.iter().rev().copied().collect(),
				[v, *v].concat(),
				[v, *v, *v].concat(),
				[&[0x22], *v, &[0x22]].concat(),
				[&v[..], &[v.iter().fold(0, |x, b| x ^ b)]].concat(),
				v.strip_suffix(&[0]).unwrap_or(v).to_vec(),
				v.strip_prefix(&[0]).unwrap_or(v).to_vec(),
			];
			for n in 1..6 {
				for pad in [0u8, 0xFF, b' ', b'0', b'F', 0x0F, 0xF0, 0x80, 0x0A, 0x0D, b'\t', b'=', b'*', 0x3F] {
					forms.push([v.to_vec(), vec![pad; n]].concat());
					forms.push([vec![pad; n], v.to_vec()].concat());
					forms.push([text.clone().into_bytes(), vec![pad; n]].concat());
					forms.push([vec![pad; n], text.clone().into_bytes()].concat());
				}
			}
			// The length, or the tag and the length, or those of a template
			let tag = SIZED[*which].0;
			let len = [v.len() as u8];
			forms.push([&len, *v].concat());
			forms.push([&[0], &len, *v].concat());
			forms.push([&[0x81], &len, *v].concat());
			forms.push([tag, &len, *v].concat());
			forms.push([tag, *v].concat());
			forms.push([&[0x04], &len, *v].concat());
			forms.push([&[0x77, (v.len() + tag.len() + 1) as u8], tag, &len, *v].concat());
			// Digits, and other characters, as many as there may be
			for n in 0..=40usize {
				forms.push("0120190508".bytes().cycle().take(n).collect());
				forms.push("2019".bytes().cycle().take(n).collect());
				forms.push("ABCDEF".bytes().cycle().take(n).collect());
				forms.push(v.iter().copied().cycle().take(n).collect());
			}
			cases.extend(forms.into_iter().map(|f| (*which, f)));
		}
	}
	cases.sort();
	cases.dedup();
	cases
}
fn rewritten_in_tlv() -> Vec<Block> {
	rewritten()
		.into_iter()
		.enumerate()
		.map(|(i, (which, value))| Block {
			ingenico: i % 3 == 0,
			sort: i % 2 == 0,
			before: if i % 5 == 0 { vec![Obj::bytes(&[0x9A], &[0x25, 1, 2])] } else { vec![] },
			tag: SIZED[which].0.to_vec().into(),
			value: value.into(),
			after: vec![],
			within: if i % 7 == 0 { vec![(vec![0x70].into(), true, false)] } else { vec![] },
		})
		.collect()
}
fn rewritten_alone() -> Vec<Single> {
	// (which option there is for which of them)
	const OF: &[(usize, usize)] = &[(0, 0), (2, 0), (1, 2), (7, 3), (8, 4), (3, 1)];
	rewritten()
		.into_iter()
		.flat_map(|(which, value)| {
			OF.iter().filter(move |(w, _)| *w == which).map(move |(_, option)| Single {
				option: *option,
				value:  value.clone().into(),
			})
		})
		.collect()
}

/// A value of the wrong size among any number of objects.
fn among_many() -> Vec<Block> {
	let mut cases = Vec::new();
	for (k, (n, at)) in crowds().into_iter().enumerate() {
		for (i, (tag, _)) in SIZED.iter().enumerate() {
			let mut before = vec![Obj::bytes(&[0x9A], &[]); at];
			if i % 2 == 0 {
				before = vec![Obj::bytes(&[0x5F, 0x20], b"A"); at];
			}
			cases.push(Block {
				ingenico: (i + k) % 2 == 0,
				sort: (i + k / 2) % 3 == 0,
				before,
				tag: tag.to_vec().into(),
				// (of these sizes, one at least is wrong)
				value: fill([0, 1, 3, 7, 33][(i + k) % 5], i).into(),
				after: vec![Obj::bytes(&[0x5A], &[0x12]); n - at],
				within: if k % 4 == 0 { vec![(vec![0x70].into(), true, false)] } else { vec![] },
			});
		}
	}
	cases
}
fn quiet_objs() -> BoxedStrategy<Vec<Obj>> {
	vec(gen::obj(2, 8), 0..4)
		.prop_map(|objs| {
			objs.into_iter()
				.filter(|o| {
					let mut b = Vec::new();
					o.encode(&mut b);
					crate::wire::parse_ber(&b, &[]).is_ok_and(|n| admitted(&n))
				})
				.collect()
		})
		.boxed()
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("every-size", true, &every_size(ctx.thorough), check_single);
	ctx.each("texts", true, &texts(), check_text);
	ctx.random(
		"any-text",
		8_000,
		|| {
			let piece = prop_oneof![2 => "[0-9a-fA-F]{1,5}", 2 => "[g-zG-Z ]{1,20}", 1 => "\\PC{1,4}", 1 => gen::noise()];
			(0..OPTIONS.len(), vec(piece, 1..8)).prop_map(|(option, p)| Text { option, text: p.concat() }).boxed()
		},
		check_text,
	);
	ctx.each("identify-nothing", true, &no_tags(), check_identify);
	ctx.each("every-size-in-tlv", true, &every_size_in_tlv(ctx.thorough), check_block);
	ctx.each("rewritten", true, &rewritten_alone(), check_single);
	ctx.each("rewritten-in-tlv", true, &rewritten_in_tlv(), check_block);
	ctx.each("among-many", true, &among_many(), check_block);
	ctx.each("vast", true, &vast(ctx.thorough), check_vast);
	ctx.random(
		"single",
		30_000,
		|| {
			(0..OPTIONS.len(), prop_oneof![3 => gen::bytes(20), 1 => gen::bytes(1000), 4 => of_others()])
				.prop_map(|(option, v)| Single {
					option,
					value: v.into(),
				})
				.boxed()
		},
		check_single,
	);
	ctx.random(
		"tlv",
		35_000,
		|| {
			(
				(any::<bool>(), any::<bool>()),
				quiet_objs(),
				select(SIZED.to_vec()),
				prop_oneof![4 => gen::bytes(14), 1 => gen::bytes(300), 3 => of_others()],
				quiet_objs(),
				vec((gen::constructed_tag().prop_map(Hex), any::<bool>(), any::<bool>()), 0..12),
			)
				.prop_map(|((ingenico, sort), before, (tag, _), value, after, within)| Block {
					ingenico,
					sort,
					before,
					tag: tag.to_vec().into(),
					value: value.into(),
					after,
					within,
				})
				.boxed()
		},
		check_block,
	);
	ctx.random(
		"transactions",
		12000,
		|| company::strategy((select(SIZED.to_vec()), any::<bool>(), gen::bytes(9)).prop_map(|((tag, n), near, mut v)| { if near { v.resize(n.max(7) - 1 + v.len() % 3, 0); } if tag == [0x8A] { v.iter_mut().for_each(|b| *b &= 0x7F); } (tag.to_vec(), v) }).boxed()),
		company::check(&[], |_, _, _| Ok(())),
	);
	ctx.finish(
		"Every option and tag with a size: all sizes up to 300 (in TLV 70), those around \
		 multiples of 256 (thorough: up to 2,200 and as long as an argument can be), texts of any length with few digits, or none, in them; ASCII values in TLV of more \
		 than 65,536 characters, random ones, and values that are right for something else, whole, cut, \
		 padded and joined, right sizes included; right values rewritten as text, packed, padded, prefixed, doubled; in TLV data of both formats, at the top and inside up to 12 \
		 objects, among others. Expected size, bound and actual size have to be those stated. \
		 The same within random whole transactions in either format. Non-trivial: a value whose size was judged.",
		&["which of several refused values a diagnostic is about isn't judged (there's one)"],
	)
}
