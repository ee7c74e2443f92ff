use proptest::{
	collection::vec,
	prelude::*,
	sample::{select, Index},
};
use serde::{Deserialize, Serialize};

use crate::{
	common::*,
	display::{parse_tlv, same_structure, Shown},
	engine::*,
	exec::Inv,
	gen,
	spec,
	wire::{encode_block, encode_ingenico, parse_ber, parse_ingenico, Bad, Body, Node, Obj, Rec},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ber {
	objs:  Vec<Obj>,
	masks: Vec<char>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ingenico {
	recs:  Vec<Rec>,
	masks: Vec<char>,
}

fn same_meaning(want: &[Node], got: &[Shown]) -> Result<(), String> {
	for (w, g) in want.iter().zip(got) {
		if w.masked {
			let name = spec::tag_name(&w.tag).unwrap_or(spec::UNKNOWN_NAME);
			if g.name != name {
				return Err(format!(
					"the masked object {} should be named {name:?}, is {:?}",
					crate::wire::hex(&w.tag),
					g.name
				));
			}
		} else {
			decoded_as_due(&w.tag, &w.value, g)
				.map_err(|e| format!("{} beside masked data: {e}", crate::wire::hex(&w.tag)))?;
		}
		same_meaning(&w.kids, &g.kids)?;
	}
	Ok(())
}
fn count(nodes: &[Node]) -> (usize, usize) {
	nodes.iter().fold((0, 0), |(m, o), n| {
		let (km, ko) = count(&n.kids);
		(m + km + usize::from(n.masked), o + ko + usize::from(!n.masked))
	})
}
fn judge(inv: &Inv, want: Result<Vec<Node>, Bad>) -> Checked {
	let want = match want {
		Ok(nodes) => nodes,
		Err(Bad::Undetermined) => return seen(false, "not determined"),
		Err(_) => {
			// A hex value that masking alone would have excused
			refusal(inv)?;
			return seen(true, "refused without the mask");
		}
	};
	match spec::block_admitted(&want) {
		None => return seen(false, "not determined"),
		Some(false) => {
			refusal(inv)?;
			return seen(true, "a decoded tag refuses its unmasked value");
		}
		Some(true) => {}
	}
	let out = breakdown(inv)?;
	let shown = at(inv, parse_tlv(&out))?;
	at(inv, same_structure(&want, &shown))?;
	at(inv, same_meaning(&want, &shown))?;
	let (masked, other) = count(&want);
	seen_n(
		masked + other > 0,
		match (masked, other) {
			(0, _) => "nothing masked",
			(_, 0) => "all masked",
			_ => "some masked",
		},
		masked + other,
	)
}
fn check_ber(case: &Ber) -> Checked {
	let bytes = encode_block(&case.objs);
	if bytes.is_empty() || bytes.len() > 55_000 {
		return seen(false, "empty or too long");
	}
	judge(&ber(&bytes, &case.masks, false), parse_ber(&bytes, &case.masks))
}
fn check_ingenico(case: &Ingenico) -> Checked {
	let text = encode_ingenico(&case.recs, false);
	if text.is_empty() || !fits(&text) {
		return seen(false, "empty or too long");
	}
	let inv = tlv("ingenico-tlv", &text, &case.masks, false);
	judge(&inv, parse_ingenico(&text, &case.masks))
}

/// Values that are or nearly are wholly masked.
fn filled(masks: Vec<char>, len: usize, ascii: bool) -> BoxedStrategy<Vec<u8>> {
	let fills: Vec<u8> = masks
		.iter()
		.filter(|m| m.is_ascii())
		.map(|m| *m as u8)
		.chain(if masks.iter().any(char::is_ascii) { None } else { Some(b'*') })
		.collect();
	let other = if ascii {
		prop_oneof![0x20u8..0x7F, 1u8..0x80, Just(b'*'), Just(b'0')].boxed()
	} else {
		gen::byte()
	};
	prop_oneof![
		6 => select(fills.clone()).prop_map(move |f| vec![f; len]),
		3 => (select(fills.clone()), other.clone(), any::<Index>()).prop_map(move |(f, o, at)| {
			let mut v = vec![f; len];
			if len > 0 {
				v[at.index(len)] = o;
			}
			v
		}),
		2 => (select(fills.clone()), other.clone(), any::<bool>()).prop_map(move |(f, o, end)| {
			let mut v = vec![f; len];
			if len > 0 {
				v[if end { len - 1 } else { 0 }] = o;
			}
			v
		}),
		2 => vec(select(fills), len),
		2 => other.clone().prop_map(move |o| vec![o; len]),
		1 => vec(other, len),
	]
	.boxed()
}
fn fill_length(tag: &[u8]) -> BoxedStrategy<usize> {
	let due = match tag {
		[0x95] | [0x9F, 0x0D..=0x0F] | [0x9F, 0x40] => 5,
		[0x9B] | [0x5F, 0x30] | [0x8A] => 2,
		[0x9F, 0x33] | [0x9F, 0x34] => 3,
		[0x9F, 0x10] => 32,
		[0x8E] => 12,
		_ => 1,
	};
	prop_oneof![4 => Just(due), 4 => 0usize..6, 2 => 6usize..40, 1 => gen::length(600)].boxed()
}
fn tag() -> BoxedStrategy<Vec<u8>> {
	prop_oneof![3 => gen::decoded_tag(), 3 => gen::named_tag(), 2 => gen::any_tag(), 2 => gen::constructed_tag()]
		.boxed()
}
fn ber_objs(masks: Vec<char>, depth: u32) -> BoxedStrategy<Vec<Obj>> {
	let m = masks.clone();
	let filled_obj = tag()
		.prop_flat_map(|t| (fill_length(&t), Just(t)))
		.prop_flat_map(move |(len, t)| {
			(Just(t), filled(m.clone(), len, false), prop_oneof![4 => Just(0u8), 1 => 1u8..=4])
		})
		.prop_map(|(tag, value, form)| Obj {
			tag: tag.into(),
			form,
			body: Body::Bytes(value.into()),
		})
		.boxed();
	let one = if depth == 0 {
		prop_oneof![5 => filled_obj, 3 => gen::leaf(20)].boxed()
	} else {
		prop_oneof![
			4 => filled_obj,
			2 => gen::leaf(20),
			3 => (gen::constructed_tag(), ber_objs(masks, depth - 1)).prop_map(|(tag, kids)| Obj {
				tag: tag.into(),
				form: 0,
				body: Body::Kids(kids),
			}),
		]
		.boxed()
	};
	vec(one, 0..5).boxed()
}
fn mask_set() -> BoxedStrategy<Vec<char>> {
	prop_oneof![2 => Just(vec!['*']), 3 => gen::masks(1), 3 => gen::masks(4), 1 => gen::masks(12)].boxed()
}
fn ber_cases() -> BoxedStrategy<Ber> {
	mask_set()
		.prop_flat_map(|masks| (ber_objs(masks.clone(), 2), Just(masks)))
		.prop_map(|(objs, masks)| Ber { objs, masks })
		.boxed()
}
/// Masked and other objects on every level of a deep nest.
fn deep_objs(masks: Vec<char>) -> BoxedStrategy<Vec<Obj>> {
	(gen::wraps(), ber_objs(masks.clone(), 1), ber_objs(masks, 0), 1u8..9)
		.prop_map(|(n, core, beside, every)| {
			let mut kids = core;
			for i in 0..n {
				let mut level = vec![Obj {
					tag:  vec![0xE1 + i % 4].into(),
					form: 0,
					body: Body::Kids(kids),
				}];
				if i % every == 0 {
					level.extend(beside.iter().take(2).cloned());
				}
				kids = level;
			}
			kids
		})
		.boxed()
}
fn deep_ber_cases() -> BoxedStrategy<Ber> {
	mask_set()
		.prop_flat_map(|masks| (deep_objs(masks.clone()), Just(masks)))
		.prop_map(|(objs, masks)| Ber { objs, masks })
		.boxed()
}
fn deep_ingenico_cases() -> BoxedStrategy<Ingenico> {
	mask_set()
		.prop_flat_map(|masks| (deep_objs(masks.clone()), Just(masks)))
		.prop_map(|(objs, masks)| Ingenico {
			recs: objs
				.iter()
				.map(|o| Rec {
					kind: 'T',
					tag: o.tag.clone(),
					len_bytes: 0,
					ascii: false,
					value: o.value().into(),
					lower_case: 0,
					separator: ';',
				})
				.collect(),
			masks,
		})
		.boxed()
}
fn ingenico_cases() -> BoxedStrategy<Ingenico> {
	mask_set()
		.prop_flat_map(|masks| {
			let m = masks.clone();
			let m2 = masks.clone();
			let hexish: Vec<u8> = masks
				.iter()
				.filter(|c| c.is_ascii_hexdigit())
				.map(|c| (c.to_digit(16).unwrap() * 17) as u8)
				.collect();
			let masked_hex = if hexish.is_empty() {
				gen::byte()
			} else {
				prop_oneof![3 => select(hexish), 1 => gen::byte()].boxed()
			};
			let one = prop_oneof![
				// Filled text
				4 => tag().prop_flat_map(|t| (fill_length(&t), Just(t)))
					.prop_flat_map(move |(len, t)| (Just(t), filled(m.clone(), len, true), Just(true))),
				// Hex digits that are masks
				3 => (tag(), masked_hex).prop_flat_map(|(t, b)| {
					(fill_length(&t), Just(t)).prop_map(move |(len, t)| (t, vec![b; len], false))
				}),
				// Bytes that are masks, but written in hex
				2 => tag().prop_flat_map(|t| (fill_length(&t), Just(t)))
					.prop_flat_map(move |(len, t)| (Just(t), filled(m2.clone(), len, false), Just(false))),
				2 => gen::leaf(12).prop_map(|o| (o.tag.0.clone(), o.value(), false)),
			];
			let rec = (one, gen::kind(), any::<u8>(), gen::separator()).prop_map(
				|((tag, value, ascii), kind, lower_case, separator)| Rec {
					kind,
					tag: tag.into(),
					len_bytes: 0,
					ascii: ascii && value.is_ascii() && !value.contains(&0),
					value: value.into(),
					lower_case,
					separator,
				},
			);
			(vec(rec, 1..6), Just(masks))
		})
		.prop_map(|(recs, masks)| Ingenico { recs, masks })
		.boxed()
}

/// Very long fills, most of them with one character that's different.
fn long_fill(max: usize) -> BoxedStrategy<(Vec<char>, Vec<u8>, Vec<u8>)> {
	(
		vec(gen::kind().prop_map(|c| if c.is_ascii() { c } else { '*' }), 1..4),
		any::<Index>(),
		prop_oneof![256usize..5_000, 65_000usize..66_000, 256..max].prop_map(move |n| n.min(max)),
		proptest::option::weighted(0.7, any::<Index>()),
		select(vec![vec![0xDFu8, 0x01], vec![0x5A], vec![0xE1], vec![0x57]]),
	)
		.prop_map(|(masks, pick, len, odd, tag)| {
			let fill = masks[pick.index(masks.len())] as u8;
			let mut value = vec![fill; len];
			if let Some(at) = odd {
				value[at.index(len)] = fill.wrapping_add(1) & 0x7F | 1;
			}
			(masks, tag, value)
		})
		.boxed()
}
fn long_ber_cases() -> BoxedStrategy<Ber> {
	long_fill(65_400)
		.prop_map(|(masks, tag, value)| Ber {
			objs: vec![Obj::bytes(&tag, &value)],
			masks,
		})
		.boxed()
}
fn long_ingenico_cases() -> BoxedStrategy<Ingenico> {
	(long_fill(130_000), any::<bool>())
		.prop_map(|((masks, tag, mut value), ascii)| {
			if !ascii {
				value.truncate(60_000);
			}
			let rec = Rec {
				kind: 'T',
				tag: tag.into(),
				len_bytes: 0,
				ascii,
				value: value.into(),
				lower_case: 0,
				separator: ';',
			};
			Ingenico { recs: vec![rec], masks }
		})
		.boxed()
}

/// Hex-format values given as mask characters rather than digits.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
	text:  String,
	masks: Vec<char>,
}
fn check_text(case: &Text) -> Checked {
	let inv = tlv("ingenico-tlv", &case.text, &case.masks, false);
	judge(&inv, parse_ingenico(&case.text, &case.masks))
}
fn masked_texts() -> BoxedStrategy<Text> {
	mask_set()
		.prop_flat_map(|masks| {
			let fills: Vec<char> = masks
				.iter()
				.copied()
				.filter(char::is_ascii)
				.chain(['*', '#', '0'])
				.collect();
			let one = (
				tag(),
				0usize..9,
				any::<bool>(),
				select(fills.clone()),
				select(fills),
				any::<Index>(),
				prop::bool::weighted(0.3),
			)
				.prop_map(|(tag, len, ascii, c, d, at, odd)| {
					let chars = if ascii { len } else { len * 2 };
					let mut v = vec![c; chars];
					if odd && chars > 0 {
						v[at.index(chars)] = d;
					}
					format!(
						"T{}:{len:02X}:{}{}",
						crate::wire::hex(&tag),
						if ascii { 'a' } else { 'h' },
						v.iter().collect::<String>()
					)
				});
			(vec(one, 1..5), Just(masks))
		})
		.prop_map(|(recs, masks)| Text {
			text: recs.join(";"),
			masks,
		})
		.boxed()
}

/// Every ASCII character as a fill and as a mask, at the lengths where it
/// matters.
fn fill_cases() -> (Vec<Ber>, Vec<Ingenico>) {
	let mut bers = Vec::new();
	let mut recs = Vec::new();
	for fill in 1..0x80u8 {
		for others in [vec![], vec!['*', '#'], vec!['0', '\u{7f}', ' ', 'f']] {
			let mut masks = others;
			masks.insert(masks.len() / 2, char::from(fill));
			let mut objs = Vec::new();
			let mut list = Vec::new();
			for (i, len) in [0usize, 1, 2, 3, 5, 16, 17, 128, 256].into_iter().enumerate() {
				for tag in [&[0x95u8][..], &[0xDF, 0x01], &[0x5A], &[0xE1], &[0x9F, 0x10]] {
					let value = vec![fill; len];
					if tag == [0x95] && len < 2 {
						continue;
					}
					let next = fill.wrapping_add(1) & 0x7F;
					for bad in [None, Some(0), Some(len / 2), len.checked_sub(1)] {
						let mut value = value.clone();
						if let Some(at) = bad {
							if len < 2 || tag == [0x95] {
								continue;
							}
							value[at] = next.max(1);
						}
						objs.push(Obj::bytes(tag, &value));
						for ascii in [false, true] {
							list.push(Rec {
								kind: 'T',
								tag: tag.into(),
								len_bytes: 0,
								// (a TVR in hex isn't masked by its bytes)
								ascii: ascii || tag == [0x95],
								value: value.clone().into(),
								lower_case: i as u8,
								separator: ';',
							});
						}
					}
				}
			}
			objs.extend([Obj {
				tag:  vec![0x77].into(),
				form: 0,
				body: Body::Kids(objs.clone()),
			}]);
			bers.push(Ber {
				objs,
				masks: masks.clone(),
			});
			recs.push(Ingenico { recs: list, masks });
		}
	}
	(bers, recs)
}

/// Any number of masking characters, none included, given either way; the
/// values are filled with each of them and with others.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Masks {
	masks:    Vec<char>,
	by_env:   bool,
	ingenico: bool,
}
fn check_masks(case: &Masks) -> Checked {
	let mut fills: Vec<u8> = case.masks.iter().filter(|m| m.is_ascii()).map(|m| *m as u8).collect();
	fills.extend(*b"*#X.z09");
	if case.masks.len() <= 6 {
		// Those beside and between them, and in the other case
		let given: Vec<u8> = case.masks.iter().filter(|m| m.is_ascii()).map(|m| *m as u8).collect();
		for (i, m) in given.iter().enumerate() {
			fills.extend([m.saturating_sub(1), m.saturating_add(1).min(0x7F), m ^ 0x20]);
			fills.extend(given[..i].iter().map(|o| (o / 2) + (m / 2)));
		}
		// (a value that is hex digits is found in what is typed)
		fills.retain(|f| (0x20..0x7F).contains(f));
	}
	let objs: Vec<Obj> = fills.iter().enumerate().map(|(i, f)| Obj::bytes(&[0x5A], &vec![*f; 1 + i % 3])).collect();
	let (option, text) = if case.ingenico {
		// (hex digits as they are, others in place of them)
		let text: String = fills
			.iter()
			.enumerate()
			.filter(|(_, f)| f.is_ascii_hexdigit() || case.masks.contains(&char::from(**f)))
			.map(|(i, f)| format!("T5A:{:02X}:h{};", 1 + i % 3, char::from(*f).to_string().repeat(2 + i % 3 * 2)))
			.collect();
		("ingenico-tlv", text)
	} else {
		("ber-tlv", crate::wire::hex(&encode_block(&objs)))
	};
	let inv = if case.by_env {
		match tlv_by_env(option, &text, &case.masks, false) {
			Some(inv) => inv,
			None => return seen(false, "hard to spell"),
		}
	} else {
		tlv(option, &text, &case.masks, false)
	};
	let want = if case.ingenico {
		parse_ingenico(&text, &case.masks)
	} else {
		parse_ber(&encode_block(&objs), &case.masks)
	};
	judge(&inv, want)
}
fn many_masks() -> Vec<Masks> {
	let pool: Vec<char> = (0..94u8)
		.map(|i| char::from(0x21 + i * 37 % 94))
		.filter(|c| !"\"\\".contains(*c))
		.collect();
	let mut cases = Vec::new();
	for n in 0..=pool.len() {
		for start in [0, n * 11 % pool.len()] {
			for by_env in [false, true] {
				for ingenico in [false, true] {
					cases.push(Masks {
						masks: (0..n).map(|i| pool[(start + i) % pool.len()]).collect(),
						by_env,
						ingenico,
					});
				}
			}
		}
	}
	cases
}

/// Lists that could be read as patterns.
fn pattern_masks() -> Vec<Masks> {
	let mut cases = Vec::new();
	let mut add = |masks: &[char]| {
		for ingenico in [false, true] {
			cases.push(Masks {
				masks: masks.to_vec(),
				by_env: cases.len() % 8 < 2,
				ingenico,
			});
		}
	};
	let pairs = [('1', '9'), ('a', 'f'), ('A', 'Z'), ('0', '5'), ('#', '*'), ('9', '1'), ('A', 'F'), ('3', '3'), ('*', '*'), (' ', '~')];
	for p in (0x20..0x7Fu8).map(char::from) {
		for (a, b) in pairs {
			add(&[a, p, b]);
		}
		for c in ['*', '3', 'A', 'n', 'd', 'x', '0'] {
			add(&[p, c]);
			add(&[c, p]);
			add(&[p, c, p]);
		}
		for q in [')', ']', '}', '>', '/', '?', '*', '+'] {
			add(&[p, 'A', q]);
			add(&[p, '0', '-', '9', q]);
			add(&[p, '^', '3', q]);
		}
		add(&[p, p]);
		add(&[p]);
	}
	cases
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("pattern-masks", true, &pattern_masks(), check_masks);
	let (bers, recs) = fill_cases();
	ctx.each("many-masks", true, &many_masks(), check_masks);
	ctx.each("every-fill-ber", true, &bers, check_ber);
	ctx.each("every-fill-ingenico", true, &recs, check_ingenico);
	ctx.random("ber", 45_000, ber_cases, check_ber);
	ctx.random("deep-ber", 6_000, deep_ber_cases, check_ber);
	ctx.random("deep-ingenico", 3_000, deep_ingenico_cases, check_ingenico);
	ctx.random("ingenico", 30_000, ingenico_cases, check_ingenico);
	ctx.random("long-ber", 200, long_ber_cases, check_ber);
	ctx.random("long-ingenico", 200, long_ingenico_cases, check_ingenico);
	ctx.random("mask-texts", 40_000, masked_texts, check_text);
	ctx.finish(
		"Blocks whose values are filled with configured masking characters, with others, with \
		 several of them, with one character different, too short or empty, under decoded, named, \
		 unknown and constructed tags, at up to 140 levels, in BER-TLV and Ingenico (ASCII, hex \
		 digits as masks, masks as hex), beside ordinary objects, for up to 12 masking \
		 characters; every ASCII fill at the lengths where it matters, and lists of masking characters that could be read as ranges or patterns. What is masked, every \
		 other object, and every decoding are compared with the reference. Non-trivial: at least \
		 one object.",
		&[
			"bytes above 0x7F against masking characters outside ASCII are outside the property",
		],
	)
}
