use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use crate::{
	common::*,
	engine::*,
	gen,
	wire::{encode_block, hex, parse_ingenico, unhex, Hex},
};

const OPTIONS: &[&str] = &[
	"tvr", "ccd-iad", "ccd-cvr", "tsi", "cvm-results", "cvm-list", "identify", "ber-tlv", "auto-tlv",
];

/// The same digits written differently.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
	option: usize,
	value:  Hex,
	texts:  Vec<String>,
}

fn digits(text: &str) -> Vec<u8> {
	let d: String = text.chars().filter(char::is_ascii_hexdigit).collect();
	unhex(&d[..d.len() / 2 * 2])
}
fn check(case: &Case) -> Checked {
	let option = OPTIONS[case.option % OPTIONS.len()];
	let plain = hex(&case.value);
	// (an argument of only non-digits is a value of no bytes)
	let plain = if plain.is_empty() { "-".to_owned() } else { plain };
	let first = single(option, &plain);
	let want = answer(&first)?;
	let mut judged = 0;
	for text in &case.texts {
		if text.is_empty() || text.contains('\0') || digits(text) != case.value.0 || !fits(text) {
			continue;
		}
		if option == "auto-tlv" && parse_ingenico(text, &['*']) != Err(crate::wire::Bad::NonCompliant) {
			// It's also readable as the other format
			continue;
		}
		let inv = single(option, text);
		let got = answer(&inv)?;
		if got != want {
			return Err(format!(
				"{} is answered with {}, but {} with {}",
				show(&first),
				brief(&want, &got),
				show(&inv),
				brief(&got, &want)
			)
			.into());
		}
		judged += 1;
	}
	seen_n(
		judged > 0,
		match want {
			Answer::Breakdown(_) => "breakdown",
			Answer::Diagnostic(_) => "diagnostic",
			Answer::Silent => "silent",
		},
		judged,
	)
}
/// From the first line that differs.
pub fn brief(a: &Answer, b: &Answer) -> String {
	match (a, b) {
		(Answer::Breakdown(x), Answer::Breakdown(y)) => {
			let same = x.lines().zip(y.lines()).take_while(|(p, q)| p == q).count();
			crate::display::clip(&x.lines().skip(same).take(2).collect::<Vec<_>>().join("\n"), 160)
		}
		(Answer::Breakdown(x) | Answer::Diagnostic(x), _) => crate::display::clip(x.trim(), 160),
		(Answer::Silent, _) => "nothing".to_owned(),
	}
}

fn sample(option: usize) -> Vec<u8> {
	match OPTIONS[option] {
		"tvr" => vec![0xA0, 0xB4, 0x0C, 0xDE, 0xF8],
		"ccd-iad" => {
			let mut v: Vec<u8> = (0xA0..0xC0).collect();
			(v[0], v[1], v[16]) = (15, 0xA5, 15);
			v
		}
		"ccd-cvr" => vec![0x5A, 0xCB, 0x0D, 0xEF, 0x9B],
		"tsi" => vec![0xFA, 0xCE],
		"cvm-results" => vec![0x5E, 0x0A, 0x02],
		"cvm-list" => vec![0, 0, 0xAB, 0xCD, 0, 0, 0, 0xEF, 0x5E, 0x06, 0x1F, 0x0B],
		"identify" => vec![0x9F, 0x1A],
		_ => vec![0x6F, 0x0A, 0x84, 0x02, 0xAB, 0xCD, 0xA5, 0x04, 0x9F, 0x38, 0x01, 0xEF, 0x5F, 0x2D, 0x01, 0x61],
	}
}
const MARKS: &[&str] = &[
	"\u{1b}[", "\u{1b}[;", "\u{1b}]", "\u{1b}(", "\u{9b}", "\\", "\\x", "\\u{", "\\u", "\\n", "\\t", "%", "%%", "%u", "&#", "&#x", "#", "##", "$", "$$", "U+",
	"h'", "x'", "X\"", "'h", "h", "H", "_", "__", "//", "/*", "*/", "--", "- ", "<!--", "-->", "::", ": ", ":", " : ", "=", "==", "=>", "->", "\\\n",
	"\"", "'", "`", "; ", ";", ", ", ",", "|", " | ", "  |", "> ", ">", "<", "<<", ">>", "\t\t", "...", "..", ".", "-\n", "\r\n", "\n\n", "\n ", "\u{c}", "\u{b}",
	"\u{8}", "\u{7f}", "[", "]", "[]", "{", "}", "(", ")", "()", "T", "T:", ":h", "xx", "zz", "ok", "low", "your", "*", "**", "?", "!", "~", "^", "@",
	"\u{2013}", "\u{2014}", "\u{2212}", "\u{ad}", "\u{200b}", "\u{202e}", "\u{2066}", "\u{300}", "\u{fe0f}", "\u{feff}", "\u{fffd}", "\u{1f1e8}\u{1f1e6}",
];

const ESCAPES: &[&str] = &[
	"&#10;", "&#x20;", "&#x0A;", "&#0;", "&#65;", "&#x41;", "&nbsp;", "&amp;", "&lt;", "%20", "%0A", "%0D%0A", "%00", "%u0020", "+20", "=0A", "=20", "=3D", "\\x20", "\\x0a", "\\0", "\\12", "\\012", "\\040",
	"\\u0020", "\\u{20}", "\\u{A}", "\\U00000020", "U+0020", "u+0a", "\\e[0m", "\\033[0m", "\\x1b[1m", "\u{1b}[0m", "\u{1b}[1;31m", "\u{1b}]0;a\u{7}", "^[[0m", "^J", "^M", "^0A", "`0", "$0", "$1", "${1}", "$(0)", "#0", "#10",
	"# 10", "//10", "// 10\n", "/*10*/", "/* a */", "--10", "-- 10\n", ";10", "; 10\n", "<10>", "<0x0A>", "<0A>", "<!--10-->", "<b>", "</b>", "<br>", "<br/>", "<a>", "<code>", "</code>", "(10)", "(2)", "[10]", "[0]", "[ 0 ]",
	"{10}", "\"10\"", "'10'", "''10", "|10|", "  |10|", "| a |", "10:", "0000:", "0010: ", "00000010  ", "00000010:", "0x", "0x10", "0X10", "0x0010: ", "10h", "10H", "0h10", "0b10", "0o10", "0b", "0d", "1_0", "1,0", "1.0", "1e3", "1E+3",
	"-1", "+1", "@10", "@0x10", "10>", "10<", "1)", "1.", "a)", "(a)", "1:", "1/2", "2/2:", "line 1", "byte 0", "10 bytes", "2 bytes - ", "Tag: 0x", "Raw:", "len=10", "L=02", "*10", "10*", "x10", "10x", "xx10", "..10", "10..", "...",
	"\u{b2}10", "1\u{300}0", "\u{202e}10\u{202c}", "\u{200b}10\u{200b}", "\u{feff}10", "\r10", "10\r", "\u{8}", "1\u{8}", "10\u{8}\u{8}", "\u{7f}", "\u{1a}10", "\u{4}10", "\u{c}10", "\t10\t",
];

/// Digits of few kinds in every style there is of writing bytes and numbers.
fn styles() -> Vec<Case> {
	// (kinds of digits; each value is written in all styles)
	let alphabets: [&str; 12] = ["01", "0", "1", "01234567", "0123456789", "123456789", "2468", "ABCDEF", "0F", "08", "0123456789ABCDEF", "13579BDF"];
	let numbers: [&[u8]; 6] = [&[0x12, 0x11, 0x10], &[10, 20, 30, 40], &[0, 1, 255], &[128, 0, 4, 128, 0], &[1], &[224, 184]];
	let groups = [1usize, 2, 3, 4, 8, 0];
	let separators = ["", " ", ",", ", ", ":", "-", "_", "\n", ";", "; ", "|", "\t", ".", " | ", " - ", "\\", "/", " + ", "'", "\", \""];
	let prefixes = ["", "0x", "0X", "0b", "0B", "0o", "0d", "\\x", "#", "$", "%", "&", "0h", "x", "b", "o", "=", "\\0", "u", "0x0x"];
	let suffixes = ["", "h", "H", "b", "u8", "_u8", "d", "q", "o", "u", "L", "UL", "%"];
	let brackets = [
		("", ""), ("[", "]"), ("{", "}"), ("(", ")"), ("<", ">"), ("\"", "\""), ("'", "'"), ("`", "`"), ("h'", "'"), ("b'", "'"), ("x'", "'"), ("X'", "'"), ("B'", "'"), ("H'", "'"), ("b\"", "\""), ("x\"", "\""), ("'h", ""), ("8'h", ""), ("'b", ""),
		("16#", "#"), ("2#", "#"), ("&[", "]"), ("vec![", "]"), ("[u8]", ""), ("bytes(", ")"), ("hex:", ""), ("bin:", ""), ("dec:", ""), ("oct:", ""), ("base64:", ""), ("data:", ""), ("urn:", ""), ("0x[", "]"), ("[", "] "), (" [", "]"), ("=", "="), ("<<", ">>"), ("// ", ""), ("uint8_t x[] = {", "};"),
	];
	let mut texts: Vec<String> = Vec::new();
	for (k, alphabet) in alphabets.iter().enumerate() {
		for n in [2usize, 4, 6, 8, 10, 16, 24, 40, 64] {
			let chars: Vec<char> = alphabet.chars().collect();
			let mut state = (k * 131 + n * 7 + 1) as u32;
			let digits: Vec<char> = (0..n)
				.map(|_| {
					state = state.wrapping_mul(1_103_515_245).wrapping_add(12_345);
					chars[(state >> 16) as usize % chars.len()]
				})
				.collect();
			for (i, prefix) in prefixes.iter().enumerate() {
				for (j, separator) in separators.iter().enumerate() {
					let group = match groups[(i + j + n) % groups.len()] {
						0 => n,
						g => g,
					};
					let suffix = if (i + j) % 3 == 0 { suffixes[(i + j + k) % suffixes.len()] } else { "" };
					let (open, close) = if (i * 7 + j) % 2 == 0 { brackets[(i * 5 + j + k + n) % brackets.len()] } else { ("", "") };
					let every = (i + j + k) % 2 == 0;
					let items: Vec<String> = digits
						.chunks(group)
						.enumerate()
						.map(|(at, c)| {
							let c: String = c.iter().collect();
							if every || at == 0 {
								format!("{prefix}{c}{suffix}")
							} else {
								c
							}
						})
						.collect();
					texts.push(format!("{open}{}{close}", items.join(separator)));
				}
			}
			// Bare, in each pair of brackets, with each prefix
			let bare: String = digits.iter().collect();
			for (open, close) in brackets {
				texts.push(format!("{open}{bare}{close}"));
			}
			for suffix in suffixes {
				texts.push(format!("{bare}{suffix}"));
			}
			for prefix in prefixes {
				texts.push(format!("{prefix}{bare}"));
				texts.push(format!("{prefix}{}", bare.to_lowercase()));
			}
		}
	}
	for bytes in numbers {
		for form in 0..9 {
			let items: Vec<String> = bytes
				.iter()
				.map(|b| match form {
					0 => b.to_string(),
					1 => format!("{b:03}"),
					2 => format!("{b:o}"),
					3 => format!("{b:03o}"),
					4 => format!("{b:08b}"),
					5 => format!("{b:b}"),
					6 => format!("{b:x}"),
					7 => format!("{b:#x}"),
					_ => (*b as i8).to_string(),
				})
				.collect();
			for separator in separators {
				for (open, close) in brackets {
					texts.push(format!("{open}{}{close}", items.join(separator)));
				}
			}
		}
	}
	texts.sort();
	texts.dedup();
	let mut cases = Vec::new();
	for (i, text) in texts.into_iter().enumerate() {
		let value = digits(&text);
		// (those that take just so many bytes, if there are so many)
		let option = match value.len() {
			5 => [0, 2, 7, 6][i % 4],
			2 => [3, 6, 7, 8][i % 4],
			3 => [4, 6, 7, 8][i % 4],
			_ => [6, 7, 8, 5, 0][i % 5],
		};
		cases.push(Case {
			option,
			value: value.into(),
			texts: vec![text],
		});
	}
	cases
}

/// Every byte value that can be in an argument, everywhere between digits.
fn every_separator() -> Vec<Case> {
	let mut cases = Vec::new();
	// Things that mean something elsewhere
	for option in 0..OPTIONS.len() {
		let value = sample(option);
		for mark in MARKS {
			let s = (*mark).to_owned();
			let mut texts: Vec<String> = [2usize, 3, 4, 8, 16]
				.into_iter()
				.map(|apart| {
					let digits: Vec<char> = hex(&value).chars().collect();
					digits.chunks(apart).map(|c| c.iter().collect::<String>()).collect::<Vec<_>>().join(&s)
				})
				.collect();
			let h = hex(&value);
			for h in [h.clone(), h.to_lowercase()] {
				texts.push(gen::noisy(&value, 0, &[s.clone()]));
				texts.push(format!("{s}{h}"));
				texts.push(format!("{h}{s}"));
				texts.push(format!("{s}{h}{s}"));
				texts.push(format!("{s}{s}{h}\n"));
				for at in 1..=h.len().min(9) {
					texts.push(format!("{}{s}{}", &h[..at], &h[at..]));
					texts.push(format!("{}{s}{}{s}", &h[..at], &h[at..]));
					texts.push(format!("{}\n{s}{}", &h[..at], &h[at..]));
					texts.push(format!(" {}{s} {}", &h[..at], &h[at..]));
				}
			}
			cases.push(Case {
				option,
				value: value.clone().into(),
				texts,
			});
		}
	}
	// Escapes, comments and the like, digits and all, and the strings of the source text
	let mut sequences: Vec<&str> = ESCAPES.to_vec();
	sequences.extend(gen::dictionary().strings.iter().map(String::as_str).filter(|s| (2..=24).contains(&s.len())));
	for (option, value) in (0..OPTIONS.len()).map(|o| (o, sample(o))) {
		let h = hex(&value);
		for (i, s) in sequences.iter().enumerate() {
			// (strings of the source text not with each option)
			if i >= ESCAPES.len() && (i + option) % 3 > 0 {
				continue;
			}
			for at in [0, 1, 2, 4, h.len() - 1, h.len()] {
				let texts: Vec<String> = [
					format!("{}{s}{}", &h[..at], &h[at..]),
					format!("{} {s} {}", &h[..at], &h[at..]),
					format!("{}\n{s}\n{}", &h[..at], &h[at..]),
				]
				.into();
				// Digits of the sequence count
				cases.push(Case {
					option,
					value: digits(&texts[0]).into(),
					texts,
				});
			}
		}
	}
	// Every two marks together
	let marks: Vec<char> = (1u8..0x7F).map(char::from).filter(|c| !c.is_ascii_alphanumeric()).collect();
	for (option, value) in [3, 6, 7].into_iter().map(|o| (o, sample(o))) {
		let h = hex(&value);
		for a in &marks {
			let texts = marks
				.iter()
				.flat_map(|b| {
					let s = format!("{a}{b}");
					[
						gen::noisy(&value, 0, &[s.clone()]),
						format!("{s}{h}"),
						format!("{}{s}{}", &h[..1], &h[1..]),
						format!("{h}{s}"),
					]
				})
				.collect::<Vec<_>>();
			cases.extend(texts.chunks(16).map(|t| Case {
				option,
				value: value.clone().into(),
				texts: t.to_vec(),
			}));
		}
	}
	for option in 0..OPTIONS.len() {
		let value = sample(option);
		let chars: Vec<char> = (1u8..0x80)
			.map(char::from)
			.chain("\u{80}\u{a0}\u{aa}\u{b2}\u{bc}\u{c6}\u{e6}\u{130}\u{660}\u{966}\u{2028}\u{200b}\u{feff}\u{ff10}\u{ff19}\u{ff21}\u{ff26}\u{ff41}\u{ff46}\u{1d7ce}\u{1f4b3}\u{10ffff}".chars())
			.filter(|c| !c.is_ascii_hexdigit())
			.collect();
		for c in chars {
			let s = c.to_string();
			let mut texts = vec![
				gen::noisy(&value, 0, &[s.clone()]),
				gen::noisy(&value, 0x5555_5555_5555_5555, &[String::new(), s.clone()]),
				format!("{s}{}", hex(&value)),
				format!("{}{s}", hex(&value)),
				format!("{}{s}", hex(&value).to_lowercase()),
				format!("{s}{s}{}{s}7", hex(&value)),
			];
			// In the middle of a byte alone
			let h = hex(&value);
			texts.push(format!("{}{s}{}", &h[..1], &h[1..]));
			texts.push(format!("{}{s}{}", &h[..h.len() - 1], &h[h.len() - 1..]));
			cases.push(Case {
				option,
				value: value.clone().into(),
				texts,
			});
		}
		// Every digit as the unpaired last one, every digit in both cases
		for d in "0123456789abcdefABCDEF".chars() {
			cases.push(Case {
				option,
				value: value.clone().into(),
				texts: vec![
					format!("{}{d}", hex(&value)),
					format!("{} {d}", hex(&value).to_lowercase()),
					format!("{}{d}.", gen::noisy(&value, u64::MAX / 3, &[" ".to_owned()])),
				],
			});
			cases.push(Case {
				option,
				value: Hex(vec![]),
				texts: vec![d.to_string(), format!(" {d}"), format!("x{d}")],
			});
		}
		for bit in 0..64 {
			cases.push(Case {
				option,
				value: value.clone().into(),
				texts: vec![gen::noisy(&value, 1 << bit, &[]), gen::noisy(&value, !(1 << bit), &[])],
			});
		}
	}
	cases
}
fn value(option: usize) -> BoxedStrategy<Vec<u8>> {
	let right: BoxedStrategy<Vec<u8>> = match OPTIONS[option] {
		"tvr" | "ccd-cvr" => gen::bytes_of(5),
		"ccd-iad" => gen::ccd_iad(),
		"tsi" => gen::bytes_of(2),
		"cvm-results" => gen::valid_value(&[0x9F, 0x34]),
		"cvm-list" => gen::cvm_list(6),
		"identify" => prop_oneof![2 => gen::named_tag(), 1 => gen::any_tag()].boxed(),
		_ => gen::block(4, 3, 10).prop_map(|b| encode_block(&b)).boxed(),
	};
	prop_oneof![9 => right, 1 => gen::bytes(16)].boxed()
}

/// Values within documents of all kinds, whose other digits count too.
const DOCUMENTS: &[&str] = &[
	"{\"data\":\"{}\"}", "{\"da\":\"{}\"}", "{ \"data\" : \"{}\" }", "{\"a\":\"1\",\"data\":\"{}\"}", "{\"data\":\"{}\",\"a\":1}", "[\"{}\"]", "[\"ab\",\"{}\"]", "{data:'{}'}", "{\"data\":[\"{}\"]}",
	"<data>{}</data>", "<da>{}</da>", "<tag a=\"b\">{}</tag>", "<field value=\"{}\"/>", "<?xml version=\"1.0\"?><a>{}</a>", "<![CDATA[{}]]>", "<a>{}", "a,b,{}", "{},a,b", "\"a\",\"{}\"", "a;b;{}", "a\tb\t{}", "ab|{}|cd",
	"data: {}", "data: \"{}\"", "- {}", "--- \ndata: {}\n...", "data = {}", "data={}", "data=\"{}\"", "export DATA={}", "set data {}", "[data]\nvalue={}", "data:{}", "de55={}", "DE55: {}", "field 55: {}", "F55={}", "[55] {}", "055 {}",
	"2024-01-02 {}", "2024-01-02T03:04:05Z {}", "12:34:56 {}", "12:34:56.789 DEBUG {}", "[12:34:56] {}", "Jan 02 03:04:05 a: {}", "DEBUG {}", "I/tag: {}", "E: {}", "<< {}", ">> {}", "-> {}", "=> {}", "< {}", "> {}", "{} 9000", "{} 90 00", "{}9000", "SW: 9000 {}",
	"00B2010C00 {}", "00 A4 04 00 07 {} 00", "C-APDU: {}", "R-APDU: {}", "R: {} [9000]", "TLV[{}]", "TLV({})", "tag 9F: {}", "0000: {}", "0000000 {}", "00000000: {}  ab.d", "00000000  {}  |ab.d|", "0000000 {}\n0000020", "$1 = {}", "0x7ffe: {}", "(gdb) {}", "*1 = {}",
	":02000000{}FE", ":{}", "S1{}", "S105{}A", "@0000 {}", "begin 644 a\n{}\nend", "-----BEGIN DATA-----\n{}\n-----END DATA-----", "data:application/octet-stream;base64,{}", "data:;hex,{}", "urn:a:{}", "http://a.b/c?d={}", "http://a.b/c/{}?d=e", "?data={}", "?data={}&a=b", "#{}", "/{}",
	"SELECT '{}'", "x'{}'", "E'\\\\x{}'", "'\\\\x{}'::bytea", "0x{}::a", "CAST({} AS BINARY)", "INSERT INTO a VALUES ('{}')", "char a[] = \"{}\";", "const b: &[u8] = &hex!(\"{}\");", "a = bytes.fromhex('{}')", "bytes([{}])", "bytearray(b'{}')", "b'{}'", "new byte[] {{}}", "#\"{}\"", "#x{}",
	"${{}}", "$({})", "`{}`", "\"{}\"", "'{}'", "({})", "[{}]", "{{}}", "<{}>", "/*a*/{}", "//a\n{}", "# a\n{}", "#a\n{}", "; a\n{}", "-- a\n{}", "% a\n{}", "REM a\n{}", "{} // a", "{} # a", "{} ; a", "{} -- a", "{} /* a */", "{} (a)", "{}\n# a", "{}\n\na", "a\n{}", "a\r\n{}", "a\n\n{}",
	"{} (3 bytes)", "3 bytes: {}", "len 3: {}", "3: {}", "[3] {}", "<3 {}>", "({}, 3)", "{}/3", "{} x2", "2x {}", "{}*", "*{}", "{}...", "...{}", "{}h", "{}H", "h{}", "0h{}", "0b{}", "16#{}#", "16r{}", "&H{}", "&h{}&", "\\x{}", "%{}", "=?a?b?{}?=", "={}=", "~{}~", "^{}^", "_{}_", "**{}**", "```\n{}\n```", "| {} |",
	"card: {}", "Raw:    \"{}\"", "Tag: 0x{}", "Parsed: {}", "[0] {}", "a.b: {}", "a@b: {}", "c:\\d> {}", "$ {}", "# {}", "% {}", "abc $ {}", "user@ab:~$ {}", "pemv -t {}", "pemv --ber-tlv {}", "--ber-tlv={}", "-b {}", "-b{}", "echo {} | cat", "{} | cat", "{};", "{},", "{}.", ".{}", ",{}", ";{}", "{}\u{0}",
];
fn documents() -> Vec<Case> {
	let mut cases = Vec::new();
	for option in 0..OPTIONS.len() {
		let plain = hex(&sample(option));
		for document in DOCUMENTS {
			for padding in 0..4usize {
				// (so that what's left of it can be a value as well)
				let text = document.replacen("{}", &plain, 1);
				let text = match padding {
					0 => text,
					1 => format!(" {text}"),
					2 => format!("{text}\n"),
					_ => document.replacen("{}", &plain[..2], 1),
				};
				cases.push(Case {
					option,
					value: digits(&text).into(),
					texts: vec![text],
				});
			}
		}
	}
	cases
}
/// Anything that looks like text.
fn prose() -> BoxedStrategy<Case> {
	let word = prop::sample::select(vec!["data", "tag", "value", "ber", "ac", "deadbeef", "hex", "iad", "length", "response", "apdu", "x", "key", "end", "begin", "null", "true", "false", "DE", "field", "55", "9000", "0x", "00", "1", "T", "EMV", "TLV", "card", "code"]);
	let mark = prop_oneof![1 => Just(" "), 4 => prop::sample::select(vec![" ", ":", ": ", "=", ",", ", ", ";", "\"", "'", "\":\"", "\",\"", "=", "<", ">", "/>", "</", "(", ")", "[", "]", "{", "}", "\n", "\r\n", "\t", "|", "-", "--", "_", ".", "...", "/", "\\", "#", "$", "%", "&", "@", "*", "\"}", "{\"", "[\"", "\"]", ""])];
	(0..OPTIONS.len(), vec((mark, word), 0..5), vec((prop_oneof![Just(" "), Just("\""), Just("'"), Just(">"), Just(":"), Just("="), Just(""), Just("\":\""), Just("[")], Just("")), 1..2), vec((prop_oneof![Just(" "), Just("\""), Just("'"), Just("<"), Just("\"}"), Just("]"), Just("\n"), Just(""), Just(")")], word_again()), 0..3), any::<bool>())
		.prop_map(|(option, before, opening, after, closed)| {
			let mut text = String::new();
			for (mark, word) in before {
				text.push_str(mark);
				text.push_str(word);
			}
			text.push_str(opening[0].0);
			text.push_str(&hex(&sample(option)));
			for (mark, word) in after {
				text.push_str(mark);
				text.push_str(word);
			}
			if closed {
				text.push_str("\"}");
			}
			Case {
				option,
				value: digits(&text).into(),
				texts: vec![text],
			}
		})
		.boxed()
}
fn word_again() -> BoxedStrategy<&'static str> {
	prop_oneof![Just("9000"), Just("data"), Just("bytes"), Just("a"), Just("/data>"), Just(""), Just("end"), Just("len"), Just("3"), Just("// comment"), Just("# comment"), Just(":")].boxed()
}

pub fn run(ctx: &Ctx) -> i32 {
	ctx.each("documents", true, &documents(), check);
	ctx.random("prose", 15_000, prose, check);
	ctx.each("every-separator", true, &every_separator(), check);
	ctx.each("styles", true, &styles(), check);
	ctx.random(
		"big",
		400,
		|| {
			let value = |option: usize| match OPTIONS[option] {
				"cvm-list" => gen::cvm_list(2_000),
				_ => vec(gen::leaf(20), 20..800).prop_map(|b| encode_block(&b)).boxed(),
			};
			prop::sample::select((0..OPTIONS.len()).filter(|o| OPTIONS[*o].ends_with("tlv") || OPTIONS[*o] == "cvm-list").collect::<Vec<_>>())
				.prop_flat_map(move |option| (Just(option), value(option), any::<u64>(), vec(gen::noise(), 0..9)))
				.prop_map(|(option, value, case, noise)| {
					let texts = vec![gen::noisy(&value, case, &noise), gen::noisy(&value, !case, &noise) + "b"];
					Case {
						option,
						value: value.into(),
						texts,
					}
				})
				.boxed()
		},
		check,
	);
	ctx.random(
		"noise",
		18_000,
		|| {
			(0..OPTIONS.len())
				.prop_flat_map(|option| {
					let writing = (any::<u64>(), vec(gen::noise(), 0..6), proptest::option::weighted(0.3, "[0-9a-fA-F]"));
					(Just(option), value(option), vec(writing, 1..4))
				})
				.prop_map(|(option, value, writings)| {
					let texts = writings
						.into_iter()
						.map(|(case, noise, extra)| {
							let mut t = gen::noisy(&value, case, &noise);
							if let Some(e) = extra {
								t.push_str(&e);
								if case % 2 == 0 {
									t.push_str(noise.first().map_or("", String::as_str));
								}
							}
							t
						})
						.collect();
					Case {
						option,
						value: value.into(),
						texts,
					}
				})
				.boxed()
		},
		check,
	);
	ctx.finish(
		"The nine options that take hex data: every ASCII character but digits, and others that \
		 resemble digits, before, between and after a value's digits; every digit as an unpaired \
		 last one and either case of each digit; every pair of punctuation marks; digits of few kinds (binary, octal, decimal, ...) and \
		 numbers in every style of writing them; random values with random noise and cases; values within documents, logs, code and prose, whose other digits count too. The \
		 answer has to be the one to the plain digits. Non-trivial: another writing was compared.",
		&["arguments without a digit, other than as a value of no bytes, are empty data to all options"],
	)
}
