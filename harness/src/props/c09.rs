use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use crate::{
	common::*,
	engine::*,
	gen,
	spec::Diag,
	wire::{encode_block, encode_ingenico, hex, Body, Hex, Obj, Rec},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Item {
	tag:   Hex,
	value: Hex,
	/// Length forms of two BER-TLV encodings.
	forms: (u8, u8),
	len_bytes: u8,
	zeros: u8,
	lower_case: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	items:     Vec<Item>,
	separator: char,
	sort:      bool,
	/// The masking character, which no value is filled with.
	mask:      char,
}

fn check(case: &Case) -> Checked {
	let ber = |second: bool| {
		let objs: Vec<Obj> = case
			.items
			.iter()
			.map(|i| Obj {
				tag:  i.tag.clone(),
				form: if second { i.forms.1 } else { i.forms.0 },
				body: Body::Bytes(i.value.clone()),
			})
			.collect();
		hex(&encode_block(&objs))
	};
	let ingenico = |ascii: bool| {
		let recs: Vec<Rec> = case
			.items
			.iter()
			.map(|i| {
				let mut tag = vec![0; usize::from(i.zeros)];
				tag.extend(&i.tag.0);
				Rec {
					kind: 'T',
					tag: tag.into(),
					len_bytes: i.len_bytes,
					ascii: ascii && i.value.is_ascii() && !i.value.contains(&0),
					value: i.value.clone(),
					lower_case: i.lower_case,
					separator: case.separator,
				}
			})
			.collect();
		encode_ingenico(&recs, ascii)
	};
	// With records that aren't EMV data among them
	let among_others = || {
		let mut recs: Vec<Rec> = Vec::new();
		for (n, i) in case.items.iter().enumerate() {
			let r = Rec {
				kind: 'T',
				tag: i.tag.clone(),
				len_bytes: i.len_bytes,
				ascii: false,
				value: i.value.clone(),
				lower_case: i.lower_case,
				separator: case.separator,
			};
			for k in 0..(usize::from(i.forms.0) + n) % 4 {
				let mut other = r.clone();
				other.kind = ['C', 'S', 'D', 'I'][(k + n) % 4];
				if k % 2 == 0 {
					other.value = vec![0x31; k].into();
				}
				recs.push(other);
			}
			recs.push(r);
		}
		encode_ingenico(&recs, true)
	};
	let texts = [
		("ber-tlv", ber(false)),
		("ber-tlv", ber(true)),
		("ingenico-tlv", ingenico(false)),
		("ingenico-tlv", ingenico(true)),
		("auto-tlv", ber(true)),
		("auto-tlv", ingenico(false)),
		("auto-tlv", ingenico(true)),
		("ingenico-tlv", if case.items.len() < 100 { among_others() } else { ingenico(false) }),
	];
	let mut first = None;
	let mut class = "shown alike";
	for (option, text) in &texts {
		if !fits(text) {
			return seen(false, "too long");
		}
		let inv = tlv(option, text, &[case.mask], case.sort);
		let got = match answer(&inv)? {
			Answer::Breakdown(s) if *option == "auto-tlv" => {
				let body = s.split_once("\n\n").map(|(_, b)| b.to_owned());
				Ok(body.ok_or_else(|| format!("no format line: {}", show(&inv)))?)
			}
			Answer::Breakdown(s) => Ok(s),
			Answer::Silent => Ok(String::new()),
			Answer::Diagnostic(d) => {
				class = "refused alike";
				Err(Diag::of(&d))
			}
		};
		match &first {
			None => first = Some((got, inv)),
			Some((want, other)) if *want != got => {
				let brief = |r: &Result<String, Option<Diag>>| match r {
					Ok(s) => crate::display::clip(s, 300),
					Err(d) => format!("the diagnostic {d:?}"),
				};
				return Err(format!(
					"the same objects are shown differently: {} gives {}, but {} gives {}",
					show(other),
					brief(want),
					show(&inv),
					brief(&got)
				)
				.into());
			}
			_ => {}
		}
	}
	seen_n(true, class, case.items.len())
}

fn items(max: usize, max_len: usize, refused: u32) -> BoxedStrategy<Vec<Item>> {
	let content = prop_oneof![
		24 => gen::obj(2, max_len).prop_map(|o| (o.tag.0.clone(), o.value())),
		12 => (gen::any_tag(), gen::ascii_text(max_len)),
		8 => (gen::named_tag(), gen::ascii_text(max_len)),
		// Values that decoded tags mostly refuse
		refused => (gen::decoded_tag(), gen::bytes(12)),
	];
	let one = (content, (0u8..=4, 0u8..=4), 0u8..=4, 0u8..3, any::<u8>()).prop_map(
		|((tag, value), forms, len_bytes, zeros, lower_case)| Item {
			tag: tag.into(),
			value: value.into(),
			forms,
			len_bytes,
			zeros,
			lower_case,
		},
	);
	vec(one, 1..=max).boxed()
}
fn case(max: usize, max_len: usize, refused: u32) -> BoxedStrategy<Case> {
	(items(max, max_len, refused), gen::separator(), any::<bool>())
		.prop_map(|(items, separator, sort)| Case {
			items,
			separator,
			sort,
			mask: gen::UNUSED_MASK,
		})
		.boxed()
}

/// Every depth there is, and beyond; and many objects.
fn depths_and_crowds() -> Vec<Case> {
	let item = |tag: &[u8], value: Vec<u8>| Item {
		tag: tag.to_vec().into(),
		value: value.into(),
		forms: (0, 3),
		len_bytes: 2,
		zeros: 1,
		lower_case: 0,
	};
	let case = |items: Vec<Item>, n: usize| Case {
		items,
		separator: [';', '|', 'T'][n % 3],
		sort: n % 2 == 0,
		mask: gen::UNUSED_MASK,
	};
	let mut cases = Vec::new();
	for core in [&[0x5A, 1, 0x77, 0xC1, 0][..], &[0x9F, 0x34, 3, 0x1E, 3, 1], &[0x5A, 9]] {
		let mut value = core.to_vec();
		for n in 1..=260 {
			cases.push(case(vec![item(&[0x77], value.clone()), item(&[0x5A], vec![])], n));
			let mut v = vec![[0xE1, 0x70][n % 2]];
			crate::wire::encode_length(value.len(), 0, &mut v);
			v.extend(value);
			value = v;
		}
	}
	let mut numbers: Vec<usize> = crowds().into_iter().map(|(n, _)| n).filter(|n| *n > 0).collect();
	numbers.extend(VERY_MANY.iter().filter(|n| **n < 10_200));
	numbers.dedup();
	for n in numbers {
		let items = (0..n).map(|j| item(&[[0x5A, 0x50, 0xC1][(j * 5 + n) % 3]], vec![0x33; (j + n) % 2])).map(|mut i| {
			i.forms = (0, 0);
			i.len_bytes = 0;
			i.zeros = 0;
			i
		});
		cases.push(case(items.collect(), n));
	}
	cases
}

/// The same few objects again and again.
fn repeats() -> BoxedStrategy<Case> {
	(items(3, 4, 0), vec((0..3usize, any::<bool>(), (0u8..=4, 0u8..=4)), 2..10), gen::separator(), any::<bool>())
		.prop_map(|(few, picks, separator, sort)| Case {
			items: picks
				.iter()
				.map(|(n, altered, forms)| {
					let mut i = few[n % few.len()].clone();
					if *altered {
						i.value.0.reverse();
					}
					i.forms = *forms;
					i
				})
				.collect(),
			separator,
			sort,
			mask: gen::UNUSED_MASK,
		})
		.boxed()
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.random("repeats", 8_000, repeats, check);
	ctx.each("depths-and-crowds", true, &depths_and_crowds(), check);
	ctx.random("lists", 20_000, || case(5, 200, 4), check);
	ctx.random("single", 12_000, || case(1, 2000, 4), check);
	ctx.random(
		"deep",
		1_500,
		|| {
			(gen::chain(120), gen::separator(), any::<bool>(), (0u8..=4, 0u8..=4))
				.prop_map(|(objs, separator, sort, forms)| Case {
					items: objs
						.iter()
						.map(|o| Item {
							tag: o.tag.clone(),
							value: o.value().into(),
							forms,
							len_bytes: 0,
							zeros: 0,
							lower_case: 0,
						})
						.collect(),
					separator,
					sort,
					mask: gen::UNUSED_MASK,
				})
				.boxed()
		},
		check,
	);
	ctx.random("many", 2_000, || case(60, 30, 0), check);
	// Far more objects than a byte counts, none of which is refused
	ctx.random(
		"very-many",
		200,
		|| {
			case(2_000, 3, 0)
				.prop_map(|mut c| {
					c.items.retain(|i| {
						i.tag[0] & 0x20 == 0 && crate::spec::admits(&i.tag, &i.value) == Some(true)
					});
					c
				})
				.boxed()
		},
		check,
	);
	// As long as arguments can be
	ctx.random("large", 150, || case(2, 60_000, 0), check);
	ctx.finish(
		"Lists of objects, each written in two BER-TLV encodings with random length forms, in \
		 Ingenico hex, in Ingenico ASCII where the value is ASCII, among Ingenico records of other types, and through automatic \
		 detection; all eight answers must be the same, apart from the format line, diagnostics \
		 included. Non-trivial: all.",
		&[
			"NUL can't be given in an ASCII value on a command line",
			"masking is off: whether a value is masked depends on how it is written",
		],
	)
}
