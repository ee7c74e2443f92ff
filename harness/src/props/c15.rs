use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};

use crate::{
	company,
	common::*,
	engine::*,
	gen,
	spec::{self, Decoded, Diag},
	wire::Hex,
};

const TAG: &[u8] = &[0x5F, 0x30];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
	text: String,
}

/// What the text stands for. `None`: not determined.
fn meaning(text: &str) -> Option<Result<u16, Diag>> {
	if text.is_empty() || text.starts_with('+') || text.trim() != text {
		return None;
	}
	if !text.bytes().all(|b| b.is_ascii_digit()) {
		return Some(Err(Diag::InvalidNumber));
	}
	let digits = text.trim_start_matches('0');
	Some(if digits.len() > 3 {
		Err(Diag::InvalidNumber)
	} else {
		Ok(digits.parse().unwrap_or(0))
	})
}
fn check_text(case: &Text) -> Checked {
	let inv = single("service-code", &case.text);
	match meaning(&case.text) {
		None => seen(false, "not determined"),
		Some(Ok(n)) => {
			let out = breakdown(&inv)?;
			at(&inv, same_lines(&spec::service_code_lines(n), &lines(&out)))?;
			seen(true, if case.text.len() == 3 { "three digits" } else { "other number of digits" })
		}
		Some(Err(d)) => {
			refused_as(&inv, &d)?;
			seen(
				true,
				if case.text.bytes().all(|b| b.is_ascii_digit()) {
					"too large, refused"
				} else {
					"no decimal number, refused"
				},
			)
		}
	}
}

fn check(case: &Batch) -> Checked {
	let n = case.judge(decoded_as_due)?;
	seen_n(true, "service codes in TLV data", n)
}
/// A block with something that may be refused.
fn check_block(case: &Batch) -> Checked {
	let due = case.values.iter().find_map(|(t, v)| match spec::decode(t, v) {
		Decoded::Refused(d) => Some(d),
		_ => None,
	});
	match due {
		None => check(case),
		Some(d) => {
			refused_as(&ber(&case.bytes(), &[], false), &d)?;
			seen(
				true,
				if d == Diag::InvalidNumber { "refused as no number" } else { "refused for its size" },
			)
		}
	}
}

fn texts() -> Vec<Text> {
	let mut cases = Vec::new();
	for n in 0..=999u32 {
		cases.push(format!("{n:03}"));
		cases.push(format!("{n}"));
		cases.push(format!("{n:04}"));
		cases.push(format!("{n:0w$}", w = 5 + n as usize % 30));
	}
	for n in (1000..2100).chain((0..66).map(|k| k * 1000)).chain((0..260).map(|k| k * 256 + 201)) {
		cases.push(format!("{n}"));
		cases.push(format!("{n:06}"));
	}
	for k in 1..22u32 {
		// Numbers that wrap around to service codes
		for n in [0u128, 1, 201, 220, 999] {
			cases.push((65536 * u128::from(k) + n).to_string());
			cases.push(((1u128 << 32) * u128::from(k) + n).to_string());
			cases.push(((1u128 << 64) * u128::from(k) + n).to_string());
			cases.push(((1u128 << 8) * u128::from(k) + n).to_string());
			cases.push((10u128.pow(k + 3) + n).to_string());
		}
	}
	for t in [
		"2O1", "20l", "0x201", "201h", "2.01", "201.0", "-201", "-0", "--201", "2 01", "201,220", "1e2",
		"\u{ff12}\u{ff10}\u{ff11}", "\u{662}\u{660}\u{661}", "20\u{b9}", "abc", "2A1", "A", "0xFF", "two",
		"2_01", "201;", "0b1", "\u{0967}", "1\u{200b}", "2\t1", "NaN", "inf", "true", "2-01", "20+1", "-", "_", "99999999999999999999999999999999999999999999999999",
	] {
		cases.push(t.to_owned());
	}
	cases.into_iter().map(|text| Text { text }).collect()
}

fn every_bcd() -> (Vec<Batch>, Vec<Batch>) {
	let mut valid = Vec::new();
	let mut invalid = Vec::new();
	for n in 0..=u16::MAX {
		let v = n.to_be_bytes().to_vec();
		let pair = (TAG.to_vec(), v.clone());
		if spec::bcd_service_code(&v).is_some() {
			valid.push(pair);
		} else {
			invalid.push(Batch::new(vec![pair]));
		}
	}
	(batches(&valid, 50), invalid)
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("every-number", true, &texts(), check_text);
	let (valid, invalid) = every_bcd();
	ctx.each("every-bcd-code", true, &valid, check);
	// (all of them in the thorough tier)
	let some: Vec<Batch> = if ctx.thorough {
		invalid
	} else {
		invalid
			.into_iter()
			.filter(|b| {
				let v = &b.values[0].1;
				v[0] < 0x10 || v[1] % 16 == v[0] / 16 || v[0] % 16 == 0 && v[1] % 16 < 2
			})
			.collect()
	};
	ctx.each("every-refused-bcd-code", ctx.thorough, &some, check_block);
	let pairs: Vec<_> = [&[0x02, 0x01][..], &[0x00, 0x00], &[0x09, 0x99], &[0x12, 0x01], &[0x02, 0x0A], &[0x02], &[2, 1, 0], &[]]
		.iter()
		.map(|v| (TAG.to_vec(), v.to_vec()))
		.collect();
	ctx.each("among-many", true, &crowded(&pairs), check_block);
	ctx.random(
		"texts",
		25_000,
		|| {
			prop_oneof![
				2 => "[0-9]{1,3}",
				2 => "0{0,12}[0-9]{1,4}",
				2 => "[0-9]{4,6}",
				1 => "[0-9]{1,60}",
				2 => "[0-9]{0,3}[A-Fa-fxO. :/_;-][0-9]{0,3}",
				1 => "[0-9]{0,2}[\\p{Nd}][0-9]{0,2}",
				1 => "\\PC{1,8}",
			]
			.prop_map(|text| Text { text })
			.boxed()
		},
		check_text,
	);
	ctx.random(
		"tlv",
		25_000,
		|| {
			let digit_pair = || (0u8..10, 0u8..10).prop_map(|(a, b)| a << 4 | b);
			let value = prop_oneof![
				5 => (0u8..10, digit_pair()).prop_map(|(a, b)| vec![a, b]),
				1 => (digit_pair(), digit_pair()).prop_map(|(a, b)| vec![a, b]),
				1 => (0u8..10, any::<u8>()).prop_map(|(a, b)| vec![a, b]),
				1 => vec(digit_pair(), 0..6),
				1 => gen::bytes(20),
			];
			(
				0u8..4,
				vec(gen::leaf(8).prop_map(|o| (o.tag.clone(), Hex(o.value()))), 0..4),
				value,
				select(vec![0usize, 1, 2]),
			)
				.prop_map(|(wraps, mut values, value, at)| {
					values.retain(|(t, _)| t[0] & 0x20 == 0);
					values.insert((values.len() * at).div_ceil(2), (TAG.to_vec().into(), value.into()));
					Batch { wraps, values }
				})
				.boxed()
		},
		check_block,
	);
	ctx.random(
		"transactions",
		12000,
		|| company::strategy(select([&[0x5F, 0x30][..]].to_vec()).prop_flat_map(|t| (Just(t.to_vec()), gen::valid_value(t))).boxed()),
		company::check(&[&[0x5F, 0x30]], decoded_as_due),
	);
	ctx.finish(
		"Every number from 0 to 999 written with and without leading zeroes, numbers from 1000 on \
		 (those that wrap to small ones included), text that's no decimal number; every BCD pair \
		 that's a service code and (quick: an eighth of) those that aren't, random values of \
		 right and wrong sizes among other objects. Compared with the digit tables of ISO/IEC \
		 7813. The same within random whole transactions in either format. Non-trivial: everything determined.",
		&["surrounding whitespace and a leading plus sign aren't judged"],
	)
}
