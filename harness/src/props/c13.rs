use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};

use crate::{
	company,
	common::*,
	display::Shown,
	engine::*,
	gen,
	spec::{self, cvm_rule, Diag},
	wire::{hex, Hex},
};

/// Reads `<label> <digits>` with whatever follows.
fn amount(line: &str, label: &str) -> Option<String> {
	let rest = line.strip_prefix(label)?.trim_start();
	let digits: String = rest.chars().take_while(char::is_ascii_digit).collect();
	let after = &rest[digits.len()..];
	if after.starts_with(|c: char| c.is_alphanumeric() || c == '.' || c == ',') {
		return None;
	}
	(!digits.is_empty()).then_some(digits)
}

fn same_list(value: &[u8], lines: &[String]) -> Result<(), String> {
	let want = spec::cvm_list(value).map_err(|d| format!("{d:?} is due"))?;
	let mut lines = lines.iter().peekable();
	let x = lines.peek().and_then(|l| amount(l, "X Value:"));
	if x.is_some() {
		if !want.shown {
			return Err("amounts of zero that nothing refers to are shown".to_owned());
		}
		lines.next();
		let y = lines.next().and_then(|l| amount(l, "Y Value:"));
		let width = want.x.max(want.y).to_string().len().max(3);
		let due = [want.x, want.y].map(|a| format!("{a:0>width$}"));
		if (x.as_ref(), y.as_ref()) != (Some(&due[0]), Some(&due[1])) {
			return Err(format!("the amounts should be {due:?}, are {x:?} and {y:?}"));
		}
	} else if want.shown {
		return Err(format!("the amounts {} and {} aren't shown", want.x, want.y));
	}
	if lines.next().map(String::as_str) != Some("Cardholder Verification Rules:") {
		return Err("the rules' heading isn't where it's due".to_owned());
	}
	for (i, rule) in want.rules.iter().enumerate() {
		let (method, condition, failure) = cvm_rule(*rule);
		let due = [
			format!("CVM {}:", i + 1),
			format!("\tMethod:          {method}"),
			format!("\tCondition:       {condition}"),
			format!("\tIf Unsuccessful: {failure}"),
		];
		for d in due {
			let got = lines.next();
			if got != Some(&d) {
				return Err(format!("rule {} ({}): {d:?} is due, {got:?} is shown", i + 1, hex(rule)));
			}
		}
	}
	match lines.next() {
		None => Ok(()),
		Some(l) => Err(format!("after the last rule there's {l:?}")),
	}
}

fn judge(tag: &[u8], value: &[u8], s: &Shown) -> Result<(), String> {
	if tag != [0x8E] && tag != [0x9F, 0x34] {
		return Ok(());
	}
	let lines = s.parsed.as_ref().ok_or("no decoded value is shown")?;
	if tag == [0x8E] {
		same_list(value, lines)
	} else {
		same_lines(&spec::cvm_results_lines(value).map_err(|d| format!("{d:?} is due"))?, lines)
	}
}
fn check(case: &Batch) -> Checked {
	let n = case.judge(judge)?;
	seen_n(
		case.values.iter().any(|(t, v)| t.len() == 2 || v.len() > 8),
		if case.values.iter().any(|(t, _)| t.len() == 2) {
			"CVM results"
		} else {
			"CVM lists"
		},
		n,
	)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Single {
	list:  bool,
	value: Hex,
}
fn check_single(case: &Single) -> Checked {
	if case.value.is_empty() {
		return seen(false, "empty");
	}
	let (option, due) = if case.list {
		("cvm-list", spec::cvm_list_lines(&case.value))
	} else {
		("cvm-results", spec::cvm_results_lines(&case.value))
	};
	let inv = single(option, &hex(&case.value));
	match due {
		Err(d) => {
			refused_as(&inv, &d)?;
			seen(
				true,
				if d == Diag::NonCompliant { "unassigned result refused" } else { "wrong size refused" },
			)
		}
		Ok(want) => {
			let out = breakdown(&inv)?;
			let got = lines(&out);
			if case.list {
				at(&inv, same_list(&case.value, &got))?;
			} else {
				at(&inv, same_lines(&want, &got))?;
			}
			seen(true, if case.list { "CVM list" } else { "CVM results" })
		}
	}
}
/// In a block, a CVM Results value that's refused.
fn check_refused(case: &Batch) -> Checked {
	let inv = ber(&case.bytes(), &[], false);
	let due = case
		.values
		.iter()
		.find_map(|(t, v)| match spec::decode(t, v) {
			spec::Decoded::Refused(d) => Some(d),
			_ => None,
		});
	match due {
		Some(d) => {
			refused_as(&inv, &d)?;
			seen(true, "refused in TLV data")
		}
		None => seen(false, "not refused"),
	}
}

fn list_of(x: u32, y: u32, rules: &[[u8; 2]]) -> (Vec<u8>, Vec<u8>) {
	let mut v = x.to_be_bytes().to_vec();
	v.extend(y.to_be_bytes());
	v.extend(rules.iter().flatten());
	(vec![0x8E], v)
}
fn every_rule() -> Vec<Batch> {
	let mut values = Vec::new();
	for method in 0..=255u8 {
		let rules: Vec<[u8; 2]> = (0..=255u8).map(|c| [method, c]).collect();
		for chunk in rules.chunks(64) {
			values.push(list_of(0, 0, chunk));
		}
	}
	// Whether the amounts are shown depends on every one of the conditions
	for condition in 0..=255u8 {
		for method in [0u8, 2, 0x1F, 0x3F, 0x42, 0x5E, 0x80, 0xFF] {
			values.push(list_of(0, 0, &[[method, condition]]));
			values.push(list_of(0, 0, &[[2, 0], [method, condition], [0x1F, 3]]));
		}
	}
	batches(&values, 8)
}
/// Every two conditions beside one another, with amounts of zero. The rules' order
/// doesn't matter to whether the amounts are shown, but is tried both ways.
fn every_two_conditions(thorough: bool) -> Vec<Batch> {
	let mut values = Vec::new();
	for a in 0..=255u8 {
		for b in 0..=255u8 {
			if !thorough && a > 12 && b > 12 && (a ^ b) % 4 != 0 {
				continue;
			}
			let methods = [0x02, 0x1F, 0x42, 0x3F, 0x41, 0x5E, 0x80, 0x00];
			let at = usize::from(a.wrapping_mul(31) ^ b);
			values.push(list_of(0, 0, &[[methods[at % 8], a], [methods[at / 8 % 8], b]]));
		}
	}
	batches(&values, 60)
}
/// Lists of any number of rules with conditions that refer to no amount, or one
/// that does, and amounts of zero or nearly.
fn zero_lists() -> BoxedStrategy<Batch> {
	let condition = prop_oneof![4 => 10u8..=255, 2 => 0u8..6, 1 => 6u8..10, 1 => select(vec![0x7Fu8, 0x80, 0xEF, 0xF0, 0xFF])];
	let rules = vec((any::<u8>(), condition).prop_map(|(m, c)| [m, c]), 0..9);
	let amount = || prop_oneof![6 => Just(0u32), 1 => 1u32..3, 1 => (0u32..32).prop_map(|b| 1 << b)];
	vec((amount(), amount(), rules), 1..20)
		.prop_map(|lists| Batch::new(lists.into_iter().map(|(x, y, r)| list_of(x, y, &r)).collect()))
		.boxed()
}
fn every_amount_width() -> Vec<Batch> {
	let mut amounts: Vec<u32> = (0..1100).collect();
	for p in 0..10u32 {
		let t = 10u32.pow(p);
		amounts.extend([t - 1, t, t + 1, t.saturating_mul(2), t.saturating_mul(9), t.saturating_mul(4) + 7]);
	}
	for b in 0..32 {
		amounts.extend([1u32 << b, (1u32 << b) - 1]);
	}
	amounts.push(u32::MAX);
	let mut values = Vec::new();
	for a in &amounts {
		for (x, y) in [(*a, 0), (0, *a), (*a, 5), (1, *a), (*a, *a), (*a, 123_456), (123_456, *a)] {
			values.push(list_of(x, y, &[[0x1E, 0]]));
		}
	}
	batches(&values, 60)
}
fn every_result(thorough: bool) -> Vec<Batch> {
	let mut values = Vec::new();
	for method in 0..=255u8 {
		for condition in 0..=255u8 {
			for result in 0..3u8 {
				// (all of them in the thorough tier)
				if thorough || (method as usize * 3 + condition as usize + result as usize) % 2 == 0
				{
					values.push((vec![0x9F, 0x34], vec![method, condition, result]));
				}
			}
		}
	}
	batches(&values, 80)
}
fn unassigned_results() -> Vec<Single> {
	let mut cases = Vec::new();
	for r in 0..=255u8 {
		for (m, c) in [(0x1F, 0), (0, 0), (0x42, 3), (0x3F, 0xFF), (0x02, r)] {
			cases.push(Single {
				list:  false,
				value: vec![m, c, r].into(),
			});
		}
	}
	for len in 1..60usize {
		for fill in [0u8, 1, 2, 0x1F] {
			for list in [false, true] {
				cases.push(Single {
					list,
					value: vec![fill; len].into(),
				});
			}
		}
	}
	cases
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("every-rule", true, &every_rule(), check);
	ctx.each("every-two-conditions", ctx.thorough, &every_two_conditions(ctx.thorough), check);
	ctx.random("zero-lists", 8_000, zero_lists, check);
	ctx.each("every-amount-width", false, &every_amount_width(), check);
	ctx.each("every-cvm-result", ctx.thorough, &every_result(ctx.thorough), check);
	let pairs: Vec<_> = [
		(vec![0x8E], vec![0; 8]),
		(vec![0x8E], vec![0, 0, 0, 1, 0, 0, 1, 0, 0x42, 0x07, 0x1F, 0x09]),
		(vec![0x9F, 0x34], vec![0x42, 0x03, 0x02]),
		(vec![0x9F, 0x34], vec![0x1F, 0x00, 0x00]),
	]
	.to_vec();
	ctx.each("among-many", true, &crowded(&pairs), check);
	let wrong: Vec<_> = [
		(vec![0x8E], vec![0; 7]),
		(vec![0x8E], vec![0; 9]),
		(vec![0x9F, 0x34], vec![0x42, 0x03]),
		(vec![0x9F, 0x34], vec![0x1F, 0x00, 0x03]),
		(vec![0x9F, 0x34], vec![0x1F, 0x00, 0xFF]),
	]
	.to_vec();
	ctx.each("refused-among-many", true, &crowded(&wrong), check_refused);
	ctx.each("results-and-sizes", true, &unassigned_results(), check_single);
	ctx.random(
		"lists",
		15_000,
		|| {
			(gen::wraps(), vec(gen::cvm_list(20), 1..20))
				.prop_map(|(wraps, lists)| Batch {
					wraps,
					values: lists.into_iter().map(|v| (vec![0x8E].into(), v.into())).collect(),
				})
				.boxed()
		},
		check,
	);
	ctx.random(
		"long-lists",
		1_500,
		|| gen::cvm_list(300).prop_map(|v| Batch::new(vec![(vec![0x8E], v)])).boxed(),
		check,
	);
	ctx.random(
		"very-long-lists",
		60,
		|| gen::cvm_list(5_000).prop_map(|v| Batch::new(vec![(vec![0x8E], v)])).boxed(),
		check,
	);
	ctx.random(
		"single",
		25_000,
		|| {
			prop_oneof![
				3 => (Just(true), gen::cvm_list(12)),
				1 => (Just(true), gen::bytes(30)),
				2 => (Just(false), vec(any::<u8>(), 3)),
				2 => (Just(false), gen::valid_value(&[0x9F, 0x34])),
				1 => (Just(false), gen::bytes(8)),
			]
			.prop_map(|(list, v)| Single {
				list,
				value: v.into(),
			})
			.boxed()
		},
		check_single,
	);
	ctx.random(
		"refused-in-tlv",
		8_000,
		|| {
			(
				gen::wraps(),
				vec(gen::leaf(8).prop_map(|o| (o.tag.clone(), Hex(o.value()))), 0..3),
				select(vec![vec![0x9Fu8, 0x34], vec![0x8E]]),
				prop_oneof![vec(any::<u8>(), 3), gen::bytes(14)],
			)
				.prop_map(|(wraps, mut values, tag, value)| {
					let at = values.len() / 2;
					values.insert(at, (tag.into(), value.into()));
					Batch { wraps, values }
				})
				.boxed()
		},
		check_refused,
	);
	ctx.random(
		"transactions",
		12000,
		|| company::strategy(select([&[0x8E][..], &[0x9F, 0x34]].to_vec()).prop_flat_map(|t| (Just(t.to_vec()), gen::valid_value(t))).boxed()),
		company::check(&[&[0x8E], &[0x9F, 0x34]], judge),
	);
	ctx.finish(
		"CVM Lists with every two-byte rule, every condition beside others, two conditions (quick: a third of the pairs), amounts of every \
		 number of digits in either place, up to 300 rules; CVM Results with every assigned \
		 result and all (quick: half of all) rules, every unassigned result and sizes up to 59; \
		 alone and in TLV data. Compared with the code tables of EMV Book 3. The same within random whole transactions in either format. Non-trivial: a list \
		 with a rule, or a result.",
		&["the remark after X isn't judged"],
	)
}
