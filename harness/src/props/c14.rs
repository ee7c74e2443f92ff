use proptest::{
	collection::vec,
	prelude::*,
	sample::{select, Index},
};
use serde::{Deserialize, Serialize};

use crate::{
	company,
	common::*,
	engine::*,
	gen,
	spec::{self, Diag},
	wire::{hex, Hex},
};

fn check(case: &Batch) -> Checked {
	let n = case.judge(decoded_as_due)?;
	let ccd = case.values.iter().filter(|(_, v)| spec::is_ccd_iad(v)).count();
	seen_n(
		true,
		match ccd {
			0 => "none CCD-compliant",
			c if c == case.values.len() => "all CCD-compliant",
			_ => "some CCD-compliant",
		},
		n,
	)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Single {
	value: Hex,
}
fn check_single(case: &Single) -> Checked {
	if case.value.is_empty() {
		return seen(false, "empty");
	}
	let inv = single("ccd-iad", &hex(&case.value));
	match spec::iad_lines(&case.value) {
		Ok(want) => {
			let out = breakdown(&inv)?;
			at(&inv, same_lines(&want, &lines(&out)))?;
			seen(true, "CCD-compliant")
		}
		Err(_) => {
			refused_as(&inv, &Diag::NonCcd)?;
			seen(true, "not CCD-compliant")
		}
	}
}

fn base(fill: u8) -> Vec<u8> {
	let mut v: Vec<u8> = (0..32u8).map(|i| i.wrapping_mul(37).wrapping_add(fill)).collect();
	v[0] = 15;
	v[1] = 0xA5 + fill % 2;
	v[16] = 15;
	v
}
/// All values of each byte, all pairs of structural bytes near the right ones,
/// all sizes.
fn near() -> Vec<Vec<u8>> {
	let mut values = Vec::new();
	for fill in [0u8, 0x5B] {
		for at in 0..32 {
			for b in 0..=255u8 {
				let mut v = base(fill);
				v[at] = b;
				values.push(v);
			}
		}
	}
	let lengths = [0u8, 1, 13, 14, 15, 16, 17, 31, 0x1F, 0x8F, 0xF0, 0xFF];
	for a in lengths {
		for b in lengths {
			for cci in [0xA5u8, 0xA6, 0xA4, 0xA7, 0xB5, 0x05, 0x95] {
				let mut v = base(a ^ b);
				(v[0], v[16], v[1]) = (a, b, cci);
				values.push(v);
			}
		}
	}
	// Parts that are blank, full or the same as others
	let fills: [fn(usize) -> u8; 4] = [|_| 0, |_| 0xFF, |_| 15, |i| (i as u8).wrapping_mul(29) | 1];
	for first in [15u8, 0, 14, 16, 31, 0xFF] {
		for second in [15u8, 0, 1, 14, 16, 0xFF] {
			for cci in [0xA5u8, 0xA6, 0xA0, 0xA4, 0xA7, 0x05, 0, 0xFF] {
				for mut k in 0..4usize.pow(4) {
					let mut v = vec![0; 32];
					for part in [2..3, 3..8, 8..16, 17..32] {
						for i in part {
							v[i] = fills[k % 4](i);
						}
						k /= 4;
					}
					(v[0], v[1], v[16]) = (first, cci, second);
					values.push(v);
				}
			}
		}
	}
	for len in 0..=255usize {
		for fill in [0u8, 1] {
			let mut v: Vec<u8> = base(fill).into_iter().cycle().take(len).collect();
			values.push(v.clone());
			// Length bytes that fit the size there is
			if len > 2 {
				v[0] = ((len - 2) / 2) as u8;
				let second = 1 + usize::from(v[0]);
				v[second.min(len - 1)] = v[0];
				values.push(v);
			}
		}
	}
	values
}
fn value() -> BoxedStrategy<Vec<u8>> {
	prop_oneof![
		5 => gen::ccd_iad(),
		3 => (gen::ccd_iad(), any::<Index>(), gen::byte()).prop_map(|(mut v, i, b)| {
			v[[0, 1, 16][i.index(3)]] = b;
			v
		}),
		2 => (gen::ccd_iad(), vec(gen::edit(), 1..3)).prop_map(|(mut v, edits)| {
			edits.iter().for_each(|e| gen::apply(e, &mut v));
			v
		}),
		1 => (vec(any::<u8>(), 32), select(vec![0xA5u8, 0xA6])).prop_map(|(mut v, c)| {
			v[1] = c;
			v
		}),
		1 => gen::bytes(255),
	]
	.boxed()
}

pub fn run(ctx: &Ctx) -> i32 {
	let near = near();
	let tagged: Vec<_> = near.iter().map(|v| (vec![0x9F, 0x10], v.clone())).collect();
	ctx.each("near-tlv", true, &batches(&tagged, 40), check);
	let some: Vec<_> = near.iter().step_by(near.len() / 12).map(|v| (vec![0x9F, 0x10], v.clone())).collect();
	ctx.each("among-many", true, &crowded(&some), check);
	let singles: Vec<Single> = near.into_iter().map(|v| Single { value: v.into() }).collect();
	ctx.each("near", true, &singles, check_single);
	ctx.random("single", 40_000, || value().prop_map(|v| Single { value: v.into() }).boxed(), check_single);
	ctx.random(
		"tlv",
		9_000,
		|| {
			(
				gen::wraps(),
				vec(
					prop_oneof![
						5 => value().prop_map(|v| (Hex(vec![0x9F, 0x10]), Hex(v))),
						1 => gen::leaf(8).prop_filter("no children", |o| o.tag[0] & 0x20 == 0).prop_map(|o| (o.tag.clone(), Hex(o.value()))),
					],
					1..30,
				),
			)
				.prop_map(|(wraps, values)| Batch { wraps, values })
				.boxed()
		},
		check,
	);
	ctx.random(
		"transactions",
		12000,
		|| company::strategy(select([&[0x9F, 0x10][..]].to_vec()).prop_flat_map(|t| (Just(t.to_vec()), gen::valid_value(t))).boxed()),
		company::check(&[&[0x9F, 0x10]], decoded_as_due),
	);
	ctx.finish(
		"Values at and around CCD compliance: every value of each of the 32 bytes, combinations \
		 of near-right structural bytes, every size up to 255, edits and random values, and parts blank or full under every pair of length bytes; through \
		 the option (decoded, or the non-CCD diagnostic) and in TLV data (decoded, or annotated, \
		 with the other objects undisturbed). The same within random whole transactions in either format. Non-trivial: all.",
		&[],
	)
}
