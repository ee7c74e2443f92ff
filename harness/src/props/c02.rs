use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use crate::{
	common::*,
	display::{count, parse_tlv, same_structure},
	engine::*,
	gen,
	wire::{encode_block, parse_ber, Bad, Body, Obj},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Block {
	pub objs: Vec<Obj>,
}

fn depth(objs: &[Obj]) -> usize {
	objs.iter()
		.map(|o| match &o.body {
			Body::Bytes(_) => 0,
			Body::Kids(kids) => 1 + depth(kids),
		})
		.max()
		.unwrap_or(0)
}

pub fn check(case: &Block) -> Checked {
	let bytes = encode_block(&case.objs);
	if bytes.len() > 55_000 {
		return seen(false, "too long");
	}
	let masks = ['*'];
	let want = match parse_ber(&bytes, &masks) {
		Ok(nodes) => nodes,
		Err(Bad::Undetermined) => return seen(false, "not determined"),
		Err(e) => {
			return Err(Failure::Infra(format!("the encoder made {e:?} input: {case:?}")));
		}
	};
	if want.len() != case.objs.len() {
		return Err(Failure::Infra(format!("encoder and reference differ: {case:?}")));
	}
	if !admitted(&want) {
		return seen(false, "a decoded tag refuses its value");
	}
	let inv = ber(&bytes, &masks, false);
	let out = breakdown(&inv)?;
	let shown = at(&inv, parse_tlv(&out))?;
	at(&inv, same_structure(&want, &shown))?;
	let nested = depth(&case.objs);
	let class = match (case.objs.len(), nested) {
		(0, _) => "empty",
		(_, 100..) => "nested 100+ deep",
		(_, 3..) => "nested 3+ deep",
		(_, 1..) => "nested",
		(1, 0) => "one object",
		_ => "flat",
	};
	seen_n(
		case.objs.len() > 1 || nested > 0 || case.objs.iter().any(|o| o.form > 0),
		class,
		count(&shown),
	)
}

/// Blocks in which an object of a certain length and length form stands between
/// others or last.
fn length_cases(thorough: bool) -> Vec<Block> {
	let mut lengths: Vec<usize> = (0..=300).collect();
	lengths.extend([
		383, 384, 511, 512, 513, 767, 1023, 1024, 4095, 4096, 8191, 16384, 32767, 32768, 40000,
		50000, 65000,
	]);
	if thorough {
		lengths.extend(301..2000);
	}
	let mut cases = Vec::new();
	for len in lengths {
		let value: Vec<u8> = (0..len).map(|i| (i * 7 + i / 256 + len) as u8).collect();
		for form in 0..=4u8 {
			for (before, after) in [(false, false), (true, true), (true, false)] {
				let mut objs = Vec::new();
				if before {
					objs.push(Obj::bytes(&[0x5A], &[1, 2, 3]));
				}
				let mut o = Obj::bytes(&[0xDF, 0x01], &value);
				o.form = form;
				objs.push(o);
				if after {
					objs.push(Obj::bytes(&[0xC1], &[]));
					objs.push(Obj::bytes(&[0x9F, 0x02], &[0xFF]));
				}
				cases.push(Block { objs });
			}
		}
	}
	cases
}
/// Every tag of one and two bytes.
fn tag_cases() -> Vec<Block> {
	let mut tags = Vec::new();
	for a in 0..=255u8 {
		if a & 0x1F != 0x1F {
			tags.push(vec![a]);
		} else {
			for b in 0..0x80u8 {
				tags.push(vec![a, b]);
			}
			for b in (0x81..=0xFFu8).step_by(3).chain([0x80]) {
				for c in [0u8, 1, 0x1F, 0x20, 0x7F] {
					tags.push(vec![a, b, c]);
				}
				tags.push(vec![a, b, 0x80, 0]);
				tags.push(vec![a, 0x80, b, 5]);
			}
		}
	}
	tags.retain(|t| !gen::is_decoded(t));
	let objs: Vec<Obj> = tags
		.iter()
		.enumerate()
		.map(|(i, t)| Obj::bytes(t, &[0xC0, i as u8 & 0x7F][..i % 3]))
		.collect();
	objs.chunks(16).map(|c| Block { objs: c.to_vec() }).collect()
}
/// Every byte in every column of the value display.
fn byte_cases() -> Vec<Block> {
	let mut cases = Vec::new();
	for shift in 0..16usize {
		let value: Vec<u8> = (0..=255u8).chain(0..shift as u8).map(|b| b.wrapping_add(shift as u8)).collect();
		cases.push(Block {
			objs: vec![Obj::bytes(&[0xC1], &value)],
		});
	}
	for b in 0..=255u8 {
		cases.push(Block {
			objs: vec![Obj::bytes(&[0xC1], &[b]), Obj::bytes(&[0xE1], &[b]), Obj::bytes(&[0xC2], &[1, b])],
		});
	}
	cases
}

/// As many objects as fit.
fn vast() -> Vec<Block> {
	let mut cases = Vec::new();
	for (i, n) in VERY_MANY.iter().enumerate() {
		let objs: Vec<Obj> = (0..*n).map(|j| Obj::bytes(&[[0x5A, 0xC1, 0x50][(i + j) % 3]], &[])).collect();
		cases.push(Block {
			objs: objs.clone(),
		});
		if objs.len() * 2 < 54_000 {
			cases.push(Block {
				objs: vec![Obj {
					tag:  vec![0x77].into(),
					form: 0,
					body: Body::Kids(objs),
				}],
			});
		}
	}
	cases
}

/// Each tag before each other at the end of the data.
fn ends() -> Vec<Block> {
	let tags: Vec<u8> = (0..=255u8).filter(|t| t & 0x1F != 0x1F && !gen::is_decoded(&[*t])).collect();
	let mut cases = Vec::new();
	for (i, a) in tags.iter().enumerate() {
		for (j, b) in tags.iter().enumerate() {
			// Templates are what data usually consists of
			if a & 0x20 == 0 && (i + j) % 6 != 0 {
				continue;
			}
			let body = if a & 0x20 != 0 && j % 2 == 0 {
				Body::Kids(vec![Obj::bytes(&[0xC1], &[0x41][..j / 2 % 2])])
			} else {
				Body::Bytes(vec![].into())
			};
			let first = Obj {
				tag: vec![*a].into(),
				form: 0,
				body,
			};
			cases.push(Block {
				objs: vec![first.clone(), Obj::bytes(&[*b], &[])],
			});
			if b & 0x20 == 0 && (i + j) % 3 == 0 {
				cases.push(Block {
					objs: vec![first, Obj::bytes(&[*b], &[j as u8])],
				});
			}
		}
	}
	cases
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("ends", true, &ends(), check);
	ctx.each("vast", true, &vast(), check);
	ctx.each("length-forms", false, &length_cases(ctx.thorough), check);
	ctx.each("tags", true, &tag_cases(), check);
	ctx.each("bytes", true, &byte_cases(), check);
	let twins: Vec<Block> = gen::twins().into_iter().map(|objs| Block { objs }).collect();
	ctx.each("twins", true, &twins, check);
	let odd: Vec<Block> = gen::odd_leaves().chunks(7).map(|objs| Block { objs: objs.to_vec() }).collect();
	ctx.each("odd-values", true, &odd, check);
	ctx.random(
		"blocks",
		40_000,
		|| gen::block(8, 3, 3000).prop_map(|objs| Block { objs }).boxed(),
		check,
	);
	ctx.random(
		"many-objects",
		1_500,
		|| vec(gen::leaf(12), 20..200).prop_map(|objs| Block { objs }).boxed(),
		check,
	);
	ctx.random(
		"very-many-objects",
		150,
		|| vec(gen::leaf(3), 200..4_000).prop_map(|objs| Block { objs }).boxed(),
		check,
	);
	ctx.random(
		"deep",
		1_200,
		|| gen::chain(249).prop_map(|objs| Block { objs }).boxed(),
		check,
	);
	ctx.finish(
		"Trees of data objects with random legal tags (1-6 bytes), definite length forms and \
		 values, encoded and shown; plus every length up to 300 in every form at every place, \
		 every 1- and 2-byte tag, each template before each 1-byte tag, and every byte value in every column, and objects that are almost the same. The breakdown is read back \
		 and compared with the tree. Non-trivial: more than one object, or nested, or a long \
		 length form.",
		&[
			"the indefinite length form is outside the property",
			"values of decoded tags are ones their tag admits",
			"nesting up to 250 levels",
		],
	)
}
