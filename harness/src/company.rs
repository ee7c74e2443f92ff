//! The objects of whole transactions, as logs have them: values that belong
//! together, or only almost.

use proptest::{collection::vec, prelude::*, sample::select};
use serde::{Deserialize, Serialize};

use crate::{
	common::*,
	display::{parse_tlv, Shown},
	engine::*,
	gen,
	spec::{self, Decoded},
	wire::{encode_block, encode_ingenico, hex, parse_ber, parse_ingenico, Body, Node, Obj, Rec},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Company {
	pub objs:     Vec<Obj>,
	pub ingenico: bool,
	pub sort:     bool,
}

pub type Judge = fn(&[u8], &[u8], &Shown) -> Result<(), String>;

/// Judges those objects that have one of the tags. (all, if there are none)
pub fn check(tags: &[&[u8]], judge: Judge) -> impl Fn(&Company) -> Checked + Sync + use<> {
	let tags: Vec<Vec<u8>> = tags.iter().map(|t| t.to_vec()).collect();
	move |case| {
		let masks = ['*'];
		let (option, text) = if case.ingenico {
			let recs: Vec<Rec> = case
				.objs
				.iter()
				.map(|o| Rec {
					kind: 'T',
					tag: o.tag.clone(),
					len_bytes: o.form,
					ascii: false,
					value: o.value().into(),
					lower_case: 0,
					separator: ',',
				})
				.collect();
			("ingenico-tlv", encode_ingenico(&recs, false))
		} else {
			("ber-tlv", hex(&encode_block(&case.objs)))
		};
		let nodes = if case.ingenico {
			parse_ingenico(&text, &masks)
		} else {
			parse_ber(&encode_block(&case.objs), &masks)
		};
		let Ok(mut nodes) = nodes else {
			return seen(false, "undetermined");
		};
		let inv = tlv(option, &text, &masks, case.sort);
		let mut refused = Vec::new();
		refusals(&nodes, &mut refused);
		match &refused[..] {
			[] => {}
			[one] => {
				refused_as(&inv, one)?;
				return seen_n(true, "refused", 1);
			}
			_ => {
				refusal(&inv)?;
				return seen(true, "refused");
			}
		}
		let out = breakdown(&inv)?;
		let shown = at(&inv, parse_tlv(&out))?;
		if case.sort {
			sort(&mut nodes);
		}
		let mut n = 0;
		at(&inv, walk(&nodes, &shown, &tags, judge, &mut n))?;
		seen_n(n > 0, if case.sort { "sorted" } else { "in order" }, n)
	}
}
fn refusals(nodes: &[Node], found: &mut Vec<spec::Diag>) {
	for n in nodes {
		if !n.masked {
			if let Decoded::Refused(d) = spec::decode(&n.tag, &n.value) {
				found.push(d);
			}
		}
		refusals(&n.kids, found);
	}
}
fn sort(nodes: &mut [Node]) {
	nodes.sort_by(|a, b| a.tag.cmp(&b.tag));
	for n in nodes {
		sort(&mut n.kids);
	}
}
fn walk(want: &[Node], got: &[Shown], tags: &[Vec<u8>], judge: Judge, n: &mut usize) -> Result<(), String> {
	if want.len() != got.len() {
		return Err(format!("{} objects are due, {} are shown", want.len(), got.len()));
	}
	for (w, g) in want.iter().zip(got) {
		if w.tag != g.tag {
			return Err(format!("{} is shown where {} is due", hex(&g.tag), hex(&w.tag)));
		}
		if !w.masked && (tags.is_empty() || tags.contains(&w.tag)) {
			judge(&w.tag, &w.value, g).map_err(|e| format!("{} = {}: {e}", hex(&w.tag), hex(&w.value)))?;
			*n += 1;
		}
		walk(&w.kids, &g.kids, tags, judge, n)?;
	}
	Ok(())
}

/// Identifiers of applications that are widely used.
const AIDS: &[&[u8]] = &[
	&[0xA0, 0, 0, 0, 0x03, 0x10, 0x10],
	&[0xA0, 0, 0, 0, 0x03, 0x20, 0x10],
	&[0xA0, 0, 0, 0, 0x04, 0x10, 0x10],
	&[0xA0, 0, 0, 0, 0x04, 0x30, 0x60],
	&[0xA0, 0, 0, 0, 0x25, 0x01],
	&[0xA0, 0, 0, 0, 0x42, 0x10, 0x10],
	&[0xA0, 0, 0, 0, 0x65, 0x10, 0x10],
	&[0xA0, 0, 0, 0x01, 0x52, 0x30, 0x10],
	&[0xA0, 0, 0, 0x02, 0x77, 0x10, 0x10],
	&[0xA0, 0, 0, 0x03, 0x33, 0x01, 0x01, 0x02],
	&[0xA0, 0, 0, 0x06, 0x72, 0x30, 0x20],
	&[0xD2, 0x76, 0, 0, 0x25, 0x45, 0x50, 0x01],
];
const MERCHANTS: &[[u8; 2]] = &[
	[0x60, 0x10], [0x60, 0x11], [0x60, 0x12], [0x48, 0x29], [0x54, 0x11], [0x54, 0x12], [0x55, 0x41], [0x55, 0x42], [0x58, 0x12], [0x58, 0x14], [0x59, 0x99], [0x41, 0x11], [0x70, 0x11],
	[0x75, 0x12], [0x79, 0x95], [0x40, 0x51], [0, 0],
];
const COUNTRIES: &[[u8; 2]] = &[[1, 0x24], [8, 0x26], [8, 0x40], [9, 0x78], [2, 0x50], [2, 0x76], [7, 0x56], [3, 0x92], [9, 0x99], [0, 0]];

fn pick<const N: usize>(from: &'static [[u8; N]]) -> BoxedStrategy<Vec<u8>> {
	select(from.to_vec()).prop_map(|v| v.to_vec()).boxed()
}
fn one(from: &[u8]) -> BoxedStrategy<Vec<u8>> {
	select(from.to_vec()).prop_map(|b| vec![b]).boxed()
}
fn sparse(n: usize) -> BoxedStrategy<Vec<u8>> {
	prop_oneof![
		3 => gen::valid_value(&[0x95]).prop_map(move |v| v.into_iter().cycle().take(n).collect::<Vec<u8>>()),
		1 => Just(vec![0; n]),
		1 => Just(vec![0xFF; n]),
	]
	.boxed()
}
/// A service code, and that of the track beside it.
fn service_codes() -> BoxedStrategy<(u16, u16)> {
	let usual = prop_oneof![3 => select(vec![101u16, 121, 201, 206, 220, 221, 226, 501, 520, 601, 620, 702, 906, 999]), 1 => 0u16..1000];
	(usual, 0u8..5, 0u16..1000)
		.prop_map(|(code, how, other)| {
			let track = match how {
				0 | 1 => code,
				2 => other / 100 * 100 + code % 100,
				3 => code / 10 * 10 + other % 10,
				_ => other,
			};
			(code, track)
		})
		.boxed()
}
fn amount() -> BoxedStrategy<Vec<u8>> {
	prop_oneof![Just(0u64), Just(1), 1u64..100_000, Just(10_000), 0u64..1_000_000_000_000]
		.prop_map(|n| gen::hexed(crate::wire::unhex(&format!("{n:012}"))).0)
		.boxed()
}
/// The CVM list, and the results, whose rule is of the list or not.
fn cvm() -> BoxedStrategy<(Vec<u8>, Vec<u8>)> {
	(gen::cvm_list(8), any::<prop::sample::Index>(), 0u8..4, gen::cv_rule(), 0u8..3)
		.prop_map(|(list, at, how, rule, result)| {
			let rules = &list[8..];
			let mut of = if rules.is_empty() || how == 0 {
				rule
			} else {
				let i = at.index(rules.len() / 2) * 2;
				[rules[i], rules[i + 1]]
			};
			if how == 1 {
				of = [of[0] ^ 0x40, rule[1]];
			}
			(list, vec![of[0], of[1], result])
		})
		.boxed()
}

/// Each with its value: the objects of a transaction.
fn transaction() -> BoxedStrategy<Vec<(Vec<u8>, Vec<u8>)>> {
	let add = |tag: &'static [u8], value: BoxedStrategy<Vec<u8>>| value.prop_map(move |v| vec![(tag.to_vec(), v)]).boxed();
	let aid = select(AIDS.to_vec()).prop_map(|a| {
		vec![(vec![0x4F], a.to_vec()), (vec![0x84], a.to_vec()), (vec![0x9F, 0x06], a.to_vec())]
	});
	let codes = (service_codes(), gen::bytes_of(5)).prop_map(|((code, track), pan)| {
		let digits: String = hex(&pan).chars().map(|c| char::from(b'0' + (c as u8) % 10)).collect();
		let mut pan_digits = format!("476173{digits}");
		pan_digits.truncate(16);
		let track = format!("{pan_digits}D2512{track:03}0000012300000F");
		let text = format!("B{pan_digits}^DOE/JOHN^2512{code:03}0000");
		vec![
			(vec![0x5A], crate::wire::unhex(&pan_digits)),
			(vec![0x57], crate::wire::unhex(&track[..track.len() / 2 * 2])),
			(vec![0x56], text.into_bytes()),
			(vec![0x5F, 0x30], vec![(code / 100) as u8, ((code / 10 % 10) << 4 | code % 10) as u8]),
		]
	});
	let cvm = cvm().prop_map(|(list, results)| vec![(vec![0x8E], list), (vec![0x9F, 0x34], results)]);
	// Values that go together: what's asked for, and what happened
	let checks = (sparse(5), sparse(5), sparse(5), sparse(5), 0u8..4).prop_map(|(tvr, a, b, c, how)| {
		let denial: Vec<u8> = match how {
			0 => vec![0; 5],
			1 => tvr.clone(),
			2 => tvr.iter().map(|b| !b).collect(),
			_ => a,
		};
		vec![
			(vec![0x9F, 0x0D], b),
			(vec![0x9F, 0x0E], denial),
			(vec![0x9F, 0x0F], c),
			(vec![0x95], tvr),
		]
	});
	let groups: Vec<BoxedStrategy<Vec<(Vec<u8>, Vec<u8>)>>> = vec![
		aid.boxed(),
		codes.boxed(),
		cvm.boxed(),
		checks.boxed(),
		add(&[0x9B], sparse(2)),
		add(&[0x9F, 0x10], prop_oneof![2 => gen::ccd_iad(), 1 => gen::bytes(32), 1 => Just(vec![6, 1, 0x0A, 3, 0xA0, 0, 0]), 1 => Just(vec![1, 0x10, 0xA0, 0, 0, 3])].boxed()),
		add(&[0x9F, 0x33], sparse(3)),
		add(&[0x9F, 0x40], sparse(5)),
		add(&[0x9F, 0x35], gen::valid_value(&[0x9F, 0x35])),
		add(&[0x9F, 0x39], gen::valid_value(&[0x9F, 0x39])),
		add(&[0x9C], prop_oneof![2 => one(&[0, 0, 1, 9, 0x20, 0x30]), 1 => gen::valid_value(&[0x9C])].boxed()),
		add(&[0x8A], gen::valid_value(&[0x8A])),
		add(&[0x9F, 0x15], pick(MERCHANTS)),
		add(&[0x9F, 0x1A], pick(COUNTRIES)),
		add(&[0x5F, 0x28], pick(COUNTRIES)),
		(pick(COUNTRIES), pick(COUNTRIES), one(&[0, 1, 2, 2, 3, 4]), one(&[0, 1, 2, 2, 3]))
			.prop_map(|(a, b, c, d)| vec![(vec![0x5F, 0x2A], a), (vec![0x9F, 0x42], b), (vec![0x5F, 0x36], c), (vec![0x9F, 0x44], d)])
			.boxed(),
		(amount(), amount()).prop_map(|(a, b)| vec![(vec![0x9F, 0x02], a), (vec![0x9F, 0x03], b)]).boxed(),
		add(&[0x81], prop_oneof![Just(vec![0; 4]), gen::bytes_of(4)].boxed()),
		add(&[0x9F, 0x1B], prop_oneof![Just(vec![0; 4]), gen::bytes_of(4)].boxed()),
		add(&[0x82], sparse(2)),
		add(&[0x9F, 0x07], sparse(2)),
		add(&[0x9F, 0x27], one(&[0, 0x40, 0x80, 0xC0, 0x08, 0x09])),
		add(&[0x9F, 0x26], gen::bytes_of(8)),
		add(&[0x9F, 0x36], gen::bytes_of(2)),
		add(&[0x9F, 0x17], one(&[0, 1, 2, 3])),
		add(&[0x9A], pick(&[[0x25, 1, 2], [0x26, 0x11, 0x19], [0, 0, 0]])),
		add(&[0x5F, 0x24], pick(&[[0x25, 1, 1], [0x30, 0x12, 0x31], [0x99, 0x12, 0x31], [0, 1, 1]])),
		add(&[0x9F, 0x08], pick(&[[0, 2], [0, 0x96], [0, 0x8C], [0, 1]])),
		add(&[0x9F, 0x09], pick(&[[0, 2], [0, 0x96], [0, 0x8C], [0, 1]])),
		add(&[0x50], select(vec![&b"VISA CREDIT"[..], b"MASTERCARD", b"CREDIT", b"DEBIT", b"Interac", b"AMERICAN EXPRESS"]).prop_map(<[u8]>::to_vec).boxed()),
		add(&[0x9F, 0x1D], gen::bytes_of(8)),
		add(&[0x9F, 0x66], sparse(4)),
		add(&[0x9F, 0x6E], sparse(4)),
		add(&[0x9F, 0x6C], sparse(2)),
		add(&[0x91], gen::bytes_of(10)),
		select(gen::notable()).prop_map(|o| vec![(o.tag.0.clone(), o.value())]).boxed(),
	];
	vec(select((0..groups.len()).collect::<Vec<_>>()).prop_flat_map(move |i| groups[i].clone()), 2..14)
		.prop_map(|groups| groups.concat())
		.boxed()
}

/// A transaction, together with objects that one of the strategy's gives.
pub fn strategy(with: BoxedStrategy<(Vec<u8>, Vec<u8>)>) -> BoxedStrategy<Company> {
	(
		transaction(),
		vec(with, 0..3),
		(any::<[u16; 40]>(), 0u8..6, proptest::bool::weighted(0.4)),
		(any::<bool>(), any::<bool>()),
	)
		.prop_map(|(mut values, with, (keys, shape, masked), (ingenico, sort))| {
			// In any order, or with what's added last
			if shape % 2 == 0 {
				values.extend(with);
				let mut keyed: Vec<_> = values.into_iter().enumerate().map(|(i, v)| (keys[i % 40], i, v)).collect();
				keyed.sort();
				values = keyed.into_iter().map(|(_, _, v)| v).collect();
			} else {
				values.extend(with);
			}
			let mut objs: Vec<Obj> = values.iter().map(|(t, v)| Obj::bytes(t, v)).collect();
			if masked {
				let i = usize::from(keys[0]) % (objs.len() + 1);
				objs.insert(i, Obj::bytes([&[0x5A][..], &[0x57], &[0x5F, 0x20], &[0x99]][usize::from(keys[1]) % 4], &[b'*'; 8]));
			}
			let wrap = |objs: Vec<Obj>, tag: u8| {
				vec![Obj {
					tag:  vec![tag].into(),
					form: 0,
					body: Body::Kids(objs),
				}]
			};
			let objs = match shape {
				0 | 1 => objs,
				2 => wrap(objs, 0x70),
				3 => wrap(wrap(objs, 0xA5), 0x6F),
				_ => {
					let rest = objs.split_off(usize::from(keys[2]) % (objs.len() + 1));
					let mut all = wrap(objs, 0x77);
					all.extend(if shape == 4 { rest } else { wrap(rest, 0x70) });
					all
				}
			};
			Company { objs, ingenico, sort }
		})
		.boxed()
}
