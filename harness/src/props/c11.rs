use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};

use crate::{
	company,
	common::*,
	display::{parse_diagram, Shown},
	engine::*,
	gen,
	spec::{self, BitSpec, Explained},
	wire::{hex, Hex},
};

/// The bit-field data with tags of their own.
pub const TAGS: &[(&[u8], &BitSpec)] = &[
	(&[0x95], &spec::TVR),
	(&[0x9F, 0x0D], &spec::TVR),
	(&[0x9F, 0x0E], &spec::TVR),
	(&[0x9F, 0x0F], &spec::TVR),
	(&[0x9B], &spec::TSI),
	(&[0x9F, 0x33], &spec::TERMINAL_CAPABILITIES),
	(&[0x9F, 0x40], &spec::ADDITIONAL_TERMINAL_CAPABILITIES),
];
/// Their options, and the one for Card Verification Results.
pub const OPTIONS: &[(&str, &BitSpec)] = &[
	("tvr", &spec::TVR),
	("tsi", &spec::TSI),
	("ccd-cvr", &spec::CVR),
];

fn section(lines: &[String], heading: &str) -> Result<Vec<String>, String> {
	let at = lines
		.iter()
		.position(|l| l == heading)
		.ok_or_else(|| format!("there's no {heading:?}"))?;
	Ok(lines[at + 1..]
		.iter()
		.map_while(|l| l.strip_prefix('\t'))
		.map(str::to_owned)
		.collect())
}

/// The diagrams shown for a value, with what's due for each.
pub fn diagrams(
	tag: &[u8],
	value: &[u8],
	lines: &[String],
) -> Result<Vec<(Explained, Vec<String>)>, String> {
	let explain = |s: &BitSpec, v: &[u8]| s.explain(v).ok_or("not a valid value".to_owned());
	match tag {
		[0x9F, 0x10] => Ok(vec![
			(explain(&spec::CCI, &value[1..2])?, section(lines, "Common Core Identifier:")?),
			(explain(&spec::CVR, &value[3..8])?, section(lines, "Card Verification Results:")?),
		]),
		[0x9F, 0x34] => Ok(vec![(
			spec::explain_cvm_results(value).ok_or("not a valid value")?,
			lines.to_vec(),
		)]),
		_ => {
			let (_, s) = TAGS.iter().find(|(t, _)| *t == tag).ok_or("not a bit field")?;
			let diagram = if tag.len() == 2 && matches!(tag[1], 0x0D..=0x0F) {
				lines.get(1..).unwrap_or_default()
			} else {
				lines
			};
			Ok(vec![(explain(s, value)?, diagram.to_vec())])
		}
	}
}

fn same_bits(want: &Explained, lines: &[String]) -> Result<(), String> {
	let d = parse_diagram(lines)?;
	let row = spec::binary_row(&want.bits);
	if d.binary != row {
		return Err(format!("the bits should be {row} but are {}", d.binary));
	}
	let mut due: Vec<&str> = want.items.iter().map(|i| &*i.text).collect();
	let mut got: Vec<&str> = d.explanations.iter().map(|(_, t)| &**t).collect();
	due.sort_unstable();
	got.sort_unstable();
	let missing: Vec<_> = due.iter().filter(|t| !got.contains(t)).collect();
	let wrong: Vec<_> = got.iter().filter(|t| !due.contains(t)).collect();
	if !missing.is_empty() || !wrong.is_empty() {
		return Err(format!("missing explanations: {missing:?}; wrong ones: {wrong:?}"));
	}
	if due != got {
		return Err(format!("explanations should be {due:?} but are {got:?}"));
	}
	Ok(())
}

fn judge(tag: &[u8], value: &[u8], s: &Shown) -> Result<(), String> {
	let lines = s.parsed.as_ref().ok_or("no decoded value is shown")?;
	for (want, lines) in diagrams(tag, value, lines)? {
		same_bits(&want, &lines)?;
	}
	Ok(())
}
fn check(case: &Batch) -> Checked {
	let n = case.judge(judge)?;
	seen_n(
		case.values.iter().any(|(_, v)| v.iter().any(|b| *b != 0)),
		if case.wraps > 0 { "nested" } else { "top level" },
		n,
	)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Single {
	pub option: String,
	pub value:  Hex,
}
fn check_single(case: &Single) -> Checked {
	let (_, s) = OPTIONS.iter().find(|(o, _)| *o == case.option).ok_or("no such option")?;
	let inv = single(&case.option, &hex(&case.value));
	let out = breakdown(&inv)?;
	let want = s.explain(&case.value).ok_or("not a valid value")?;
	at(&inv, same_bits(&want, &lines(&out)))?;
	seen(case.value.iter().any(|b| *b != 0), "single option")
}

/// Every value of every byte (the others all 0 or all 1), and every pair of
/// bits set or unset.
pub fn spread(spec_bytes: usize) -> Vec<Vec<u8>> {
	let mut values = Vec::new();
	for rest in [0u8, 0xFF] {
		for at in 0..spec_bytes {
			for b in 0..=255u8 {
				let mut v = vec![rest; spec_bytes];
				v[at] = b;
				values.push(v);
			}
		}
		for i in 0..spec_bytes * 8 {
			for j in 0..i {
				let mut v = vec![rest; spec_bytes];
				v[i / 8] ^= 0x80 >> (i % 8);
				v[j / 8] ^= 0x80 >> (j % 8);
				values.push(v);
			}
		}
	}
	values
}
/// Every three bits set or unset, and (`deep`) every value of every two
/// neighbouring bytes.
pub fn triples(bytes: usize, deep: bool) -> Vec<Vec<u8>> {
	let mut values = Vec::new();
	let flip = |v: &mut Vec<u8>, i: usize| v[i / 8] ^= 0x80 >> (i % 8);
	for rest in [0u8, 0xFF] {
		for i in 0..bytes * 8 {
			for j in 0..i {
				for k in 0..j {
					let mut v = vec![rest; bytes];
					flip(&mut v, i);
					flip(&mut v, j);
					flip(&mut v, k);
					values.push(v);
				}
			}
		}
		for at in 0..if deep { bytes - 1 } else { 0 } {
			for two in 0..=0xFFFFu16 {
				let mut v = vec![rest; bytes];
				v[at..at + 2].copy_from_slice(&two.to_be_bytes());
				values.push(v);
			}
		}
	}
	values
}
pub fn triple_batches(deep: bool) -> Vec<Batch> {
	let mut values = Vec::new();
	for (tag, s) in TAGS.iter().filter(|(_, s)| s.bytes > 2) {
		values.extend(triples(s.bytes, deep).into_iter().map(|v| (tag.to_vec(), v)));
	}
	values.extend(triples(5, deep).iter().map(|v| (vec![0x9F, 0x10], iad(v, 0xA5 + (v[1] ^ v[3]) % 2))));
	batches(&values, 60)
}
pub fn single_triples() -> Vec<Single> {
	OPTIONS
		.iter()
		.filter(|(_, s)| s.bytes > 2)
		.flat_map(|(option, s)| {
			triples(s.bytes, false).into_iter().map(|v| Single {
				option: (*option).to_owned(),
				value:  v.into(),
			})
		})
		.collect()
}
pub fn iad(cvr: &[u8], cci: u8) -> Vec<u8> {
	let mut v = vec![0; 32];
	v[0] = 15;
	v[1] = cci;
	v[2] = 0x5C;
	v[3..8].copy_from_slice(cvr);
	v[16] = 15;
	v
}
pub fn spread_batches() -> Vec<Batch> {
	let mut values = Vec::new();
	for (tag, s) in TAGS {
		values.extend(spread(s.bytes).into_iter().map(|v| (tag.to_vec(), v)));
	}
	values.extend(
		spread(5)
			.iter()
			.map(|v| (vec![0x9F, 0x10], iad(v, 0xA5 + (v[0] ^ v[4]) % 2))),
	);
	batches(&values, 60)
}
pub fn all_two_byte_values() -> Vec<Batch> {
	let values: Vec<_> = (0..=0xFFFFu16)
		.map(|n| (vec![0x9B], n.to_be_bytes().to_vec()))
		.collect();
	batches(&values, 100)
}
pub fn field_value() -> BoxedStrategy<(Hex, Hex)> {
	let tags: Vec<Vec<u8>> = TAGS.iter().map(|(t, _)| t.to_vec()).collect();
	prop_oneof![
		7 => select(tags).prop_flat_map(|t| (Just(t.clone()), gen::valid_value(&t))),
		1 => gen::ccd_iad().prop_map(|v| (vec![0x9F, 0x10], v)),
	]
	.prop_map(|(t, v)| (t.into(), v.into()))
	.boxed()
}
pub fn single_value() -> BoxedStrategy<Single> {
	(select(OPTIONS), vec(any::<u8>(), 5), vec(0u8..8, 5), any::<bool>())
		.prop_map(|((option, s), value, bits, sparse)| Single {
			option: option.to_owned(),
			value: value
				.iter()
				.zip(bits)
				.map(|(v, b)| if sparse { 1 << b } else { *v })
				.take(s.bytes)
				.collect::<Vec<u8>>()
				.into(),
		})
		.boxed()
}
pub fn single_spread() -> Vec<Single> {
	OPTIONS
		.iter()
		.flat_map(|(option, s)| {
			spread(s.bytes).into_iter().map(|v| Single {
				option: (*option).to_owned(),
				value:  v.into(),
			})
		})
		.collect()
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("every-byte-and-bit-pair", true, &spread_batches(), check);
	ctx.each("every-bit-triple", true, &triple_batches(ctx.thorough), check);
	if ctx.thorough {
		ctx.each("single-every-bit-triple", true, &single_triples(), check_single);
	}
	ctx.each("every-tsi", true, &all_two_byte_values(), check);
	ctx.each("single-every-byte-and-bit-pair", true, &single_spread(), check_single);
	ctx.random(
		"values",
		14_000,
		|| {
			(gen::wraps(), vec(field_value(), 1..50))
				.prop_map(|(wraps, values)| Batch { wraps, values })
				.boxed()
		},
		check,
	);
	ctx.random("single", 15_000, single_value, check_single);
	ctx.random(
		"transactions",
		12000,
		|| company::strategy(select([&[0x95][..], &[0x9B], &[0x9F, 0x0D], &[0x9F, 0x0E], &[0x9F, 0x0F], &[0x9F, 0x33], &[0x9F, 0x40], &[0x9F, 0x10]].to_vec()).prop_flat_map(|t| (Just(t.to_vec()), gen::valid_value(t))).boxed()),
		company::check(&[&[0x95], &[0x9B], &[0x9F, 0x0D], &[0x9F, 0x0E], &[0x9F, 0x0F], &[0x9F, 0x33], &[0x9F, 0x40]], judge),
	);
	ctx.finish(
		"Values of each bit field, many to a run, compared with tables of the meaning of each bit \
		 written from the EMV books: every value of each byte with the others at 00 and FF, every \
		 two and three bits set and unset, every Transaction Status Information value, and random \
		 combinations; alone, in TLV data and nested. The same within random whole transactions in either format. Non-trivial: some bit is set.",
		&[
			"the tables' wording is that of the program's first version, checked against the EMV \
			 books' bit assignments",
		],
	)
}
