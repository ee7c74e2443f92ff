use std::collections::BTreeSet;

use proptest::{collection::vec, prelude::*, sample::Index};
use serde::{Deserialize, Serialize};

use crate::{
	company,
	common::*,
	display::{parse_tlv, Shown},
	engine::*,
	gen,
	spec::{self, Decoded},
	wire::{encode_block, encode_ingenico, hex, is_constructed, Hex, Obj, Rec},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tag {
	tag: Hex,
}

fn identified(tag: &[u8]) -> Vec<String> {
	vec![
		format!("Name:             {}", spec::tag_name(tag).unwrap_or(spec::UNKNOWN_NAME)),
		format!("Tag:              0x{}", hex(tag)),
		format!("Class:            {}", spec::class_name(tag[0])),
		format!("Data Object Type: {}", spec::type_name(tag[0])),
	]
}
fn check_identify(case: &Tag) -> Checked {
	if case.tag.is_empty() {
		return seen(false, "empty");
	}
	let inv = single("identify", &hex(&case.tag));
	let out = breakdown(&inv)?;
	at(&inv, same_lines(&identified(&case.tag), &lines(&out)))?;
	seen(
		true,
		match (spec::tag_name(&case.tag), case.tag.len()) {
			(Some(_), _) => "named",
			(None, 1) => "one byte, no name",
			(None, 2) => "two bytes, no name",
			_ => "longer, no name",
		},
	)
}

/// Objects of which the names are looked at, in both formats.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Block {
	ingenico: bool,
	sort:     bool,
	mask:     char,
	objs:     Vec<(Hex, Hex)>,
}
fn named(shown: &[Shown], masks: char, judged: &mut usize) -> Result<(), String> {
	for s in shown {
		let plain = spec::tag_name(&s.tag).unwrap_or(spec::UNKNOWN_NAME);
		let due = match &s.raw {
			Some(v) if !s.masked && s.parsed.is_none() => match spec::decode(&s.tag, v) {
				Decoded::Annotated(name) => name,
				Decoded::RefusedOrAnnotated => spec::ARC_UNRECOGNISED,
				_ => plain,
			},
			_ => plain,
		};
		// Without its raw value, a variant name can't be told
		let variant = !s.masked && s.raw.is_none() && gen::is_decoded(&s.tag) && s.parsed.is_none();
		if !variant && s.name != due {
			return Err(format!("{} is named {:?} where {due:?} is due", hex(&s.tag), s.name));
		}
		*judged += 1;
		named(&s.kids, masks, judged)?;
	}
	Ok(())
}
fn check_block(case: &Block) -> Checked {
	let masks = [case.mask];
	let inv = if case.ingenico {
		let recs: Vec<Rec> = case
			.objs
			.iter()
			.map(|(t, v)| Rec {
				kind: 'T',
				tag: t.clone(),
				len_bytes: 0,
				ascii: false,
				value: v.clone(),
				lower_case: 0b1010_0110,
				separator: ',',
			})
			.collect();
		tlv("ingenico-tlv", &encode_ingenico(&recs, false), &masks, case.sort)
	} else {
		let objs: Vec<Obj> = case.objs.iter().map(|(t, v)| Obj::bytes(t, v)).collect();
		ber(&encode_block(&objs), &masks, case.sort)
	};
	let out = match answer(&inv)? {
		Answer::Breakdown(s) => s,
		// Whether it should have been is other properties' matter
		Answer::Diagnostic(_) => return seen(false, "refused"),
		Answer::Silent => String::new(),
	};
	let shown = at(&inv, parse_tlv(&out))?;
	if shown.len() != case.objs.len() {
		return Err(format!("{} objects of {} are shown: {}", shown.len(), case.objs.len(), show(&inv)).into());
	}
	if !case.sort {
		for (s, (t, _)) in shown.iter().zip(&case.objs) {
			if s.tag != t.0 {
				return Err(format!("{} is shown where {} is due: {}", hex(&s.tag), hex(t), show(&inv)).into());
			}
		}
	}
	let mut judged = 0;
	at(&inv, named(&shown, case.mask, &mut judged))?;
	seen_n(judged > 0, if case.ingenico { "Ingenico" } else { "BER-TLV" }, judged)
}

/// Every byte string of one or two bytes, and those near a registered tag.
fn every_tag(thorough: bool) -> Vec<Tag> {
	let mut tags = BTreeSet::new();
	for a in 0..=255u8 {
		tags.insert(vec![a]);
		for b in 0..=255u8 {
			tags.insert(vec![a, b]);
		}
	}
	for (t, _) in spec::TAGS {
		let t = t.to_vec();
		for b in 0..=255u8 {
			// An extra byte in front, in the middle or behind
			for at in 0..=t.len() {
				if thorough || matches!(b, 0 | 1 | 0x7F..=0x81 | 0x9F | 0xFF) || b == t[0] || at == t.len() && b % 4 == 0 {
					let mut v = t.clone();
					v.insert(at, b);
					tags.insert(v);
				}
			}
			// Longer tags with a byte changed
			if t.len() > 2 {
				for at in 0..t.len() {
					let mut v = t.clone();
					v[at] = b;
					tags.insert(v);
				}
			}
		}
		for n in 2..8 {
			let mut zeros = vec![0; n];
			zeros.extend(&t);
			tags.insert(zeros);
			let mut behind = t.clone();
			behind.extend(vec![0; n]);
			tags.insert(behind);
			tags.insert(t.repeat(n));
		}
	}
	tags.into_iter().map(|t| Tag { tag: t.into() }).collect()
}
fn no_children(tag: &[u8]) -> Vec<u8> {
	// Nothing that parses as objects
	if is_constructed(tag) {
		Vec::new()
	} else {
		vec![0xFF, 0xFF, 0x9F]
	}
}
/// All legal one- and two-byte tags in blocks, and three-byte ones.
fn every_tag_in_tlv(thorough: bool) -> Vec<Block> {
	let mut tags = Vec::new();
	for a in 1..=255u8 {
		if a & 0x1F != 0x1F {
			tags.push(vec![a]);
			continue;
		}
		for b in 0..0x80u8 {
			tags.push(vec![a, b]);
		}
		for b in 0x80..=0xFFu8 {
			for c in 0..0x80u8 {
				if thorough || b == 0x81 || c % 32 == b % 32 || c == 0x01 {
					tags.push(vec![a, b, c]);
				}
			}
		}
	}
	let mut cases = Vec::new();
	for (i, chunk) in tags.chunks(40).enumerate() {
		for ingenico in [false, true] {
			for masked in [false, true] {
				cases.push(Block {
					ingenico,
					sort: i % 3 == 0,
					mask: '*',
					objs: chunk
						.iter()
						.filter(|t| masked || !gen::is_decoded(t))
						.map(|t| {
							let value = match (masked, ingenico) {
								(false, _) => no_children(t),
								(true, false) => b"**".to_vec(),
								// (written in hex, so not masked)
								(true, true) => vec![],
							};
							(Hex(t.clone()), Hex(value))
						})
						.filter(|(t, v)| !v.is_empty() || !gen::is_decoded(t))
						.collect(),
				});
			}
		}
	}
	cases
}
/// Registered tags with values of all kinds of sizes, and among many objects.
fn vast(thorough: bool) -> Vec<Block> {
	let tags: Vec<&[u8]> = spec::TAGS.iter().map(|(t, _)| *t).filter(|t| !gen::is_decoded(t)).collect();
	let sizes: Vec<usize> = (0..70)
		.chain([96, 99, 100, 101, 127, 128, 129, 200, 252, 253, 254, 255, 256, 257, 300, 500, 511, 512, 513, 999, 1_000, 1_001])
		.chain([1_023, 1_024, 1_025, 2_047, 2_048, 3_000, 4_095, 4_096, 4_097, 8_192, 10_000, 16_384, 20_000])
		.collect();
	let mut cases = Vec::new();
	for (i, tag) in tags.iter().enumerate() {
		for (k, size) in sizes.iter().enumerate() {
			if !thorough && *size > 1_000 && (i + k) % 16 != 0 {
				continue;
			}
			cases.push(Block {
				ingenico: (i + k) % 2 == 0,
				sort: k % 3 == 0,
				mask: '*',
				// (no children come of this)
				objs: vec![(tag.to_vec().into(), vec![0xFF; *size].into())],
			});
		}
	}
	for (k, (n, at)) in crowds().into_iter().enumerate() {
		for j in 0..4 {
			let tag = tags[(k * 7 + j * 31) % tags.len()];
			let mut objs = vec![(Hex(vec![0x9F, 0x7F]), Hex(vec![0xFF])); n];
			objs.insert(at, (tag.to_vec().into(), vec![0xFF, 0x7F].into()));
			cases.push(Block {
				ingenico: (j + k) % 2 == 0,
				sort: j < 2,
				mask: '*',
				objs,
			});
		}
	}
	cases
}

fn named_as_due(tag: &[u8], value: &[u8], s: &Shown) -> Result<(), String> {
	let name = spec::shown_name(tag, value);
	if s.name == name {
		Ok(())
	} else {
		Err(format!("should be named {name:?}, is named {:?}", s.name))
	}
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("every-tag", true, &every_tag(ctx.thorough), check_identify);
	ctx.each("vast", true, &vast(ctx.thorough), check_block);
	ctx.each("every-tag-in-tlv", ctx.thorough, &every_tag_in_tlv(ctx.thorough), check_block);
	ctx.random(
		"identify",
		30_000,
		|| {
			prop_oneof![
				3 => gen::any_tag(),
				3 => (gen::named_tag(), vec(gen::edit(), 1..3)).prop_map(|(mut t, edits)| {
					edits.iter().for_each(|e| gen::apply(e, &mut t));
					t
				}),
				1 => (gen::named_tag(), gen::named_tag()).prop_map(|(a, b)| [a, b].concat()),
				1 => (gen::named_tag(), any::<Index>(), 0u8..8).prop_map(|(mut t, i, bit)| {
					let i = i.index(t.len());
					t[i] ^= 1 << bit;
					t
				}),
				1 => gen::bytes(12),
			]
			.prop_map(|t| Tag { tag: t.into() })
			.boxed()
		},
		check_identify,
	);
	ctx.random(
		"tlv",
		25_000,
		|| {
			let item = prop_oneof![
				4 => gen::named_tag().prop_flat_map(|t| (Just(t.clone()), gen::valid_value(&t))),
				2 => gen::decoded_tag().prop_flat_map(|t| (Just(t.clone()), gen::valid_value(&t))),
				2 => (gen::any_tag(), gen::bytes(6)),
				2 => gen::obj(3, 8).prop_map(|o| (o.tag.0.clone(), o.value())),
				1 => (gen::wraps(), gen::obj(1, 8)).prop_map(|(n, mut o)| {
					for _ in 0..n {
						let inner = crate::wire::encode_block(&[o]);
						o = Obj::bytes(&[0xE1], &inner);
					}
					(o.tag.0.clone(), o.value())
				}),
				1 => (gen::any_tag(), Just(b"**".to_vec())),
				1 => (gen::decoded_tag(), Just(b"****".to_vec())),
			];
			(any::<bool>(), any::<bool>(), gen::mask_char(), vec(item, 1..12))
				.prop_map(|(ingenico, sort, mask, objs)| Block {
					ingenico,
					sort,
					mask,
					objs: objs.into_iter().map(|(t, v)| (Hex(t), Hex(v))).collect(),
				})
				.boxed()
		},
		check_block,
	);
	ctx.random(
		"transactions",
		12000,
		|| company::strategy((gen::named_tag(), gen::bytes(6)).prop_map(|(t, v)| if gen::is_decoded(&t) { (vec![0xDF, 0x01], v) } else { (t, v) }).boxed()),
		company::check(&[], named_as_due),
	);
	ctx.finish(
		"The identify option with every string of one or two bytes, registered tags with a byte \
		 inserted, changed or repeated and longer tags; every legal one- and two-byte tag and \
		 (quick: some of the) three-byte tags in TLV data of both formats, masked and not, and \
		 random nested blocks. Compared with the register of EMV tags, class and type by the \
		 first byte's bits. The same within random whole transactions in either format. Non-trivial: an identification, or a breakdown with an object.",
		&["TLV data that's refused is left to other properties"],
	)
}
