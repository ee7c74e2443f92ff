use proptest::{collection::vec, prelude::*, sample::select};

use super::c11::{
	all_two_byte_values,
	diagrams,
	field_value,
	single_spread, single_triples, triple_batches,
	single_value,
	spread_batches,
	Single,
	OPTIONS,
};
use crate::{
	company,
	common::*,
	display::{parse_diagram, Shown},
	engine::*,
	gen,
	spec::{self, column, Explained},
	wire::{hex, Hex},
};

/// Whether the arms lead where they should, whatever the texts say.
fn geometry(want: &Explained, lines: &[String]) -> Result<(), String> {
	let d = parse_diagram(lines)?;
	let n = want.bits.len();
	if d.explanations.len() != want.items.len() {
		return Err(format!(
			"{} fields are due an explanation, there are {}",
			want.items.len(),
			d.explanations.len()
		));
	}
	// The lowest bit comes first
	for (index, ((arms, text), item)) in
		d.explanations.iter().zip(want.items.iter().rev()).enumerate()
	{
		let remaining = &want.items[..want.items.len() - 1 - index];
		let ends_at = arms.chars().count();
		if ends_at != column(n, item.high) {
			return Err(format!(
				"the arm of {text:?} is in column {ends_at}, its field's is {}",
				column(n, item.high)
			));
		}
		for (at, c) in arms.chars().enumerate() {
			let due = remaining.iter().any(|i| column(n, i.high) == at);
			if due != (c == '\u{2502}') {
				return Err(format!(
					"beside {text:?}, column {at} should {}have an arm passing through it",
					if due { "" } else { "not " }
				));
			}
		}
	}
	Ok(())
}
fn exact(want: &Explained, lines: &[String]) -> Result<(), String> {
	geometry(want, lines)?;
	same_lines(&spec::diagram(want), lines)
}

fn judge(tag: &[u8], value: &[u8], s: &Shown) -> Result<(), String> {
	let lines = s.parsed.as_ref().ok_or("no decoded value is shown")?;
	for (want, lines) in diagrams(tag, value, lines)? {
		exact(&want, &lines)?;
	}
	Ok(())
}
fn check(case: &Batch) -> Checked {
	let n = case.judge(judge)?;
	seen_n(
		case.values.iter().any(|(_, v)| v.iter().any(|b| *b != 0)),
		match case.wraps {
			0 => "top level",
			1..=3 => "nested 1-3 deep",
			_ => "nested deeper",
		},
		n,
	)
}
fn check_single(case: &Single) -> Checked {
	let inv = single(&case.option, &hex(&case.value));
	let want = match OPTIONS.iter().find(|(o, _)| *o == case.option) {
		Some((_, s)) => s.explain(&case.value),
		None => spec::explain_cvm_results(&case.value),
	}
	.ok_or("not a valid value")?;
	let out = breakdown(&inv)?;
	at(&inv, exact(&want, &lines(&out)))?;
	seen(!want.items.is_empty(), "single option")
}

fn value() -> BoxedStrategy<(Hex, Hex)> {
	prop_oneof![
		6 => field_value(),
		2 => gen::ccd_iad().prop_map(|v| (vec![0x9F, 0x10].into(), v.into())),
		2 => gen::valid_value(&[0x9F, 0x34]).prop_map(|v| (vec![0x9F, 0x34].into(), v.into())),
	]
	.boxed()
}
/// All CV rules' first bytes with some conditions and all results.
fn cvm_results() -> Vec<Batch> {
	let mut values = Vec::new();
	for m in 0..=255u8 {
		for c in [0u8, 1, 6, 9, 0x0A, 0x80, 0xFF] {
			for r in 0..3u8 {
				values.push((vec![0x9F, 0x34], vec![m, c, r]));
			}
		}
	}
	batches(&values, 60)
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("every-byte-and-bit-pair", true, &spread_batches(), check);
	ctx.each("every-bit-triple", true, &triple_batches(ctx.thorough), check);
	if ctx.thorough {
		ctx.each("single-every-bit-triple", true, &single_triples(), check_single);
	}
	ctx.each("every-tsi", true, &all_two_byte_values(), check);
	ctx.each("cvm-results", false, &cvm_results(), check);
	ctx.each("single-every-byte-and-bit-pair", true, &single_spread(), check_single);
	ctx.random(
		"values",
		12_000,
		|| {
			(gen::wraps(), vec(value(), 1..40))
				.prop_map(|(wraps, values)| Batch { wraps, values })
				.boxed()
		},
		check,
	);
	ctx.random(
		"very-deep",
		200,
		|| {
			(select(vec![100u8, 125, 126, 127, 128, 129, 200, 240, 247]), vec(value(), 1..4))
				.prop_map(|(wraps, values)| Batch { wraps, values })
				.boxed()
		},
		check,
	);
	ctx.random(
		"single",
		15_000,
		|| {
			prop_oneof![
				3 => single_value(),
				1 => gen::valid_value(&[0x9F, 0x34]).prop_map(|v| Single {
					option: "cvm-results".to_owned(),
					value:  v.into(),
				}),
			]
			.boxed()
		},
		check_single,
	);
	ctx.random(
		"transactions",
		12000,
		|| company::strategy(select([&[0x95][..], &[0x9B], &[0x9F, 0x0D], &[0x9F, 0x0E], &[0x9F, 0x0F], &[0x9F, 0x33], &[0x9F, 0x40], &[0x9F, 0x10]].to_vec()).prop_flat_map(|t| (Just(t.to_vec()), gen::valid_value(t))).boxed()),
		company::check(&[&[0x95], &[0x9B], &[0x9F, 0x0D], &[0x9F, 0x0E], &[0x9F, 0x0F], &[0x9F, 0x33], &[0x9F, 0x40]], judge),
	);
	ctx.finish(
		"Bit diagrams of every bit-field type (CVM Results and the Common Core Identifier \
		 included), at every indentation up to 247, compared line for line with one drawn by a \
		 reference from the fields' bit positions; each arm's column and passage is judged \
		 separately first. Every value of each byte with the others at 00 and FF, every two \
		 and three bits, every Transaction Status Information value, and random values. The same within random whole transactions in either format. Non-trivial: some \
		 bit is set.",
		&["columns are counted in characters, after the line's indentation"],
	)
}
