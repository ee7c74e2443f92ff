use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};

use crate::{
	common::*,
	display::{parse_tlv, same_structure},
	engine::*,
	gen,
	spec::Diag,
	wire::{encode_block, parse_ber, Bad, Hex},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bytes {
	bytes: Hex,
}

fn check(case: &Bytes) -> Checked {
	let masks = ['*'];
	if case.bytes.is_empty() || case.bytes.len() > 65_400 {
		return seen(false, "empty or too long");
	}
	let inv = ber(&case.bytes, &masks, false);
	match parse_ber(&case.bytes, &masks) {
		Err(Bad::Undetermined) => seen(false, "not determined"),
		Err(Bad::NonCompliant) => {
			refused_as(&inv, &Diag::NonCompliant)?;
			seen(true, "cut short")
		}
		Err(Bad::Unsupported) => {
			refused_as(&inv, &Diag::Unsupported)?;
			seen(true, "more than four length bytes")
		}
		Err(Bad::Either) => match refusal(&inv)? {
			Diag::NonCompliant | Diag::Unsupported => {
				seen(true, "more than four length bytes, cut short")
			}
			d => Err(format!("refused as {d:?}: {}", show(&inv)).into()),
		},
		Ok(nodes) if !admitted(&nodes) => seen(false, "a decoded tag refuses its value"),
		Ok(nodes) => {
			let out = breakdown(&inv)?;
			let shown = at(&inv, parse_tlv(&out))?;
			at(&inv, same_structure(&nodes, &shown))?;
			let raw_only = nodes
				.iter()
				.any(|n| n.tag[0] & 0x20 != 0 && !n.value.is_empty() && n.kids.is_empty());
			seen(
				true,
				if raw_only { "complete, with an unparseable constructed value" } else { "complete" },
			)
		}
	}
}

fn edited() -> BoxedStrategy<Bytes> {
	(gen::block(5, 2, 300), vec(gen::edit(), 1..3))
		.prop_map(|(objs, edits)| {
			let mut v = encode_block(&objs);
			edits.iter().for_each(|e| gen::apply(e, &mut v));
			Bytes { bytes: v.into() }
		})
		.boxed()
}
/// The last object is cut at every place in turn.
fn cut() -> BoxedStrategy<Bytes> {
	(gen::block(3, 1, 300), gen::leaf(2000), 1usize..40)
		.prop_map(|(mut objs, last, n)| {
			objs.push(last);
			let mut v = encode_block(&objs);
			let keep = v.len().saturating_sub(n).max(1);
			v.truncate(keep);
			Bytes { bytes: v.into() }
		})
		.boxed()
}
/// The last object declares more than there is, by anything from one byte to
/// the most a length can say.
fn inflated() -> BoxedStrategy<Bytes> {
	let excess = prop_oneof![
		3 => 1u64..4,
		2 => 1u64..300,
		2 => select(vec![0x7Fu64, 0x80, 0x4000, 0x8000, 0x80_0000, 0x4000_0000, 0xC000_0000, 0xFF, 0x100, 0xFFFF, 0x1_0000, 0xFF_FFFF, 0x100_0000, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF]),
		1 => any::<u32>().prop_map(u64::from),
	];
	(
		prop_oneof![Just(vec![]), gen::block(3, 1, 40)],
		gen::any_tag().prop_map(gen::primitive),
		gen::bytes(40),
		excess,
		0u8..=4,
	)
		.prop_map(|(objs, tag, value, excess, form)| {
			let mut v = encode_block(&objs);
			v.extend(tag);
			let len = (value.len() as u64 + excess).min(0xFFFF_FFFF);
			crate::wire::encode_length(len as usize, form, &mut v);
			v.extend(value);
			Bytes { bytes: v.into() }
		})
		.boxed()
}
fn many_length_bytes() -> BoxedStrategy<Bytes> {
	(
		prop_oneof![Just(vec![]), gen::block(3, 1, 40)],
		gen::any_tag(),
		5u8..=127,
		gen::bytes(300),
		0usize..140,
	)
		.prop_map(|(objs, tag, n, rest, zeros)| {
			let mut v = encode_block(&objs);
			v.extend(tag);
			v.push(0x80 | n);
			v.extend(vec![0; zeros.min(usize::from(n) - 1)]);
			v.extend(rest);
			Bytes { bytes: v.into() }
		})
		.boxed()
}
/// Constructed objects around anything, at any depth, with objects after them.
fn garbage_inside() -> BoxedStrategy<Bytes> {
	let junk = prop_oneof![
		gen::bytes(60),
		edited().prop_map(|b| b.bytes.0),
		cut().prop_map(|b| b.bytes.0),
		inflated().prop_map(|b| b.bytes.0),
		many_length_bytes().prop_map(|b| b.bytes.0),
	];
	(
		prop_oneof![12 => vec(gen::constructed_tag(), 1..5), 1 => vec(gen::constructed_tag(), 5..60)],
		junk,
		vec(gen::leaf(10), 0..3),
		vec(gen::leaf(10), 0..3),
	)
		.prop_map(|(tags, junk, before, after)| {
			let mut v = junk;
			for tag in tags {
				let mut w = encode_block(&before);
				w.extend(tag);
				crate::wire::encode_length(v.len(), 0, &mut w);
				w.extend(v);
				w.extend(encode_block(&after));
				v = w;
			}
			Bytes { bytes: v.into() }
		})
		.boxed()
}
/// Each way of being malformed after (or, where it's no error, within) any
/// number of objects.
fn after_many() -> Vec<Bytes> {
	let faults: [&[u8]; 14] = [
		&[],
		&[0x5A],
		&[0x9F],
		&[0xDF, 0x81],
		&[0x5A, 0x81],
		&[0x5A, 0x82, 0x00],
		&[0x5A, 0x84, 0, 0, 0],
		&[0x5A, 0x01],
		&[0x5A, 0x02, 0x12],
		&[0x5A, 0x81, 0x01],
		&[0x5A, 0x84, 0x80, 0, 0, 1, 0],
		&[0x5A, 0x85, 0, 0, 0, 0, 0],
		&[0x70, 0x03, 0x5A, 0x02, 0x12],
		&[0x70, 0x02, 0x5A, 0x02],
	];
	let fillers: [&[u8]; 5] = [&[0x5A, 0], &[0x9F, 0x02, 1, 0x30], &[0x70, 2, 0x5A, 0], &[0xDF, 0x81, 0x01, 0x81, 0], &[0x77, 1, 0xFF]];
	let mut cases = Vec::new();
	for (k, (n, _)) in crowds().into_iter().filter(|(n, at)| n == at).enumerate() {
		for (i, fault) in faults.iter().enumerate() {
			let mut v = fillers[(i + k) % fillers.len()].repeat(n);
			v.extend_from_slice(fault);
			if (i + k) % 4 == 0 {
				let mut outer = vec![0x70];
				crate::wire::encode_length(v.len(), 0, &mut outer);
				outer.extend(&v);
				v = outer;
			}
			cases.push(Bytes { bytes: v.into() });
		}
	}
	cases
}
/// Sizes on both sides of those where a length, or the text for it, gets longer.
fn long() -> Vec<Bytes> {
	let mut cases = Vec::new();
	let sizes = [127, 128, 129, 255, 256, 257, 511, 1000, 4095, 4096, 9999, 10_000, 16_383, 16_384, 32_766, 32_767, 32_768, 32_769, 33_000, 40_000, 49_152, 60_000, 65_000, 65_280, 65_300];
	for (i, size) in sizes.into_iter().enumerate() {
		for form in 1..=4usize {
			if size >> (8 * form) > 0 {
				continue;
			}
			for (tag, before) in [(&[0x5A][..], &[][..]), (&[0x9F, 0x05], &[0x50, 0]), (&[0x70], &[0x50, 0x01, 0x41]), (&[0xDF, 0x81, 0x33], &[])] {
				// Whole, one byte short, and one more declared than there are
				for kind in 0..3 {
					let mut v = before.to_vec();
					v.extend_from_slice(tag);
					v.push(0x80 | form as u8);
					let declared = (size + usize::from(kind == 2)) as u32;
					v.extend_from_slice(&declared.to_be_bytes()[4 - form..]);
					let kids: [&[u8]; 3] = [&[0x50, 0], &[0x5A, 1, 0x11], &[0x9F, 0x02, 1, 0x30]];
					let mut value = kids[i % 3].repeat(size / kids[i % 3].len() + 1);
					value.truncate(size - usize::from(kind == 1));
					v.extend(value);
					cases.push(Bytes { bytes: v.into() });
				}
			}
		}
	}
	cases
}
fn short_strings(thorough: bool) -> Vec<Bytes> {
	let mut cases = Vec::new();
	for a in 0..=255u8 {
		cases.push(vec![a]);
		for b in 0..=255u8 {
			cases.push(vec![a, b]);
		}
	}
	let alphabet: &[u8] = &[0x01, 0x02, 0x1F, 0x30, 0x3F, 0x5A, 0x7F, 0x80, 0x81, 0x82, 0x84, 0x85, 0xFF];
	let n = alphabet.len();
	let max = if thorough { 5 } else { 4 };
	for len in 3..=max {
		for mut i in 0..n.pow(len) {
			let mut v = Vec::new();
			for _ in 0..len {
				v.push(alphabet[i % n]);
				i /= n;
			}
			cases.push(v);
		}
	}
	cases.into_iter().map(|v| Bytes { bytes: v.into() }).collect()
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("short-strings", true, &short_strings(ctx.thorough), check);
	ctx.each("long", true, &long(), check);
	ctx.each("after-many", true, &after_many(), check);
	ctx.random("cut", 30_000, cut, check);
	ctx.random("inflated", 25_000, inflated, check);
	ctx.random("many-length-bytes", 12_000, many_length_bytes, check);
	ctx.random("edited", 40_000, edited, check);
	ctx.random("garbage-inside", 25_000, garbage_inside, check);
	ctx.random(
		"random-bytes",
		15_000,
		|| vec(gen::byte(), 1..40).prop_map(|v| Bytes { bytes: v.into() }).boxed(),
		check,
	);
	ctx.finish(
		"Byte strings made by cutting, inflating, editing and nesting encoded blocks, random \
		 bytes, objects of every size class up to what fits into an argument, whole and a byte short, every string of one or two bytes and every string of 3 and 4 bytes over the \
		 structurally interesting ones; the verdict, the kind of diagnostic and (if accepted) the \
		 structure are compared with a reference parser. Non-trivial: the reference parser gives \
		 a verdict and no decoded tag refuses its value.",
		&[
			"the indefinite length form (0x80) is outside the property",
			"more than four length bytes that are themselves cut short may be either diagnostic",
		],
	)
}
