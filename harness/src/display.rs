//! Strict parsing of what the program prints.

use crate::wire::{unhex, Node};

/// An object as shown in a TLV breakdown.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Shown {
	pub tag:    Vec<u8>,
	/// `None`: shown as unknown.
	pub len:    Option<usize>,
	pub name:   String,
	pub raw:    Option<Vec<u8>>,
	pub masked: bool,
	/// Lines of the decoded value, without the object's own indentation.
	pub parsed: Option<Vec<String>>,
	pub kids:   Vec<Shown>,
}

struct Lines<'a> {
	lines: Vec<&'a str>,
	pos:   usize,
}
impl<'a> Lines<'a> {
	/// The next line's text if it's indented by exactly `depth` tabs or more.
	fn peek(&self, depth: usize) -> Option<&'a str> {
		let line = self.lines.get(self.pos)?;
		let (tabs, text) = line.split_at_checked(depth)?;
		tabs.bytes().all(|b| b == b'\t').then_some(text)
	}

	fn bad(&self, what: &str) -> String {
		let shown = self.lines.get(self.pos).map_or_else(
			|| "end of output".to_owned(),
			|l| format!("line {}: {}", self.pos + 1, clip(l, 160)),
		);
		format!("the breakdown can't be read, expected {what}, found {shown}")
	}
}

pub fn clip(s: &str, max: usize) -> String {
	if s.len() <= max {
		return format!("{s:?}");
	}
	let mut end = max;
	while !s.is_char_boundary(end) {
		end -= 1;
	}
	format!("{:?}... ({} bytes)", &s[..end], s.len())
}

/// Reads a TLV breakdown. Empty output is the empty block.
pub fn parse_tlv(out: &str) -> Result<Vec<Shown>, String> {
	if out.is_empty() {
		return Ok(Vec::new());
	}
	let Some(body) = out.strip_suffix('\n') else {
		return Err("the breakdown doesn't end with a line break".to_owned());
	};
	let mut lines = Lines {
		lines: body.split('\n').collect(),
		pos:   0,
	};
	let block = parse_block(&mut lines, 0)?;
	if lines.pos != lines.lines.len() {
		return Err(lines.bad("an object or the end"));
	}
	Ok(block)
}

fn parse_block(l: &mut Lines, depth: usize) -> Result<Vec<Shown>, String> {
	let mut nodes = vec![parse_node(l, depth)?];
	while l.lines.get(l.pos) == Some(&"") {
		// A separator before an object at this level, or the end of this level
		l.pos += 1;
		if l.peek(depth).is_some_and(|t| t.starts_with("Tag: 0x")) {
			nodes.push(parse_node(l, depth)?);
		} else {
			l.pos -= 1;
			break;
		}
	}
	Ok(nodes)
}

fn parse_node(l: &mut Lines, depth: usize) -> Result<Shown, String> {
	let header = l
		.peek(depth)
		.and_then(|t| t.strip_prefix("Tag: 0x"))
		.ok_or_else(|| l.bad("an object"))?;
	let (tag, rest) = header
		.split_once(" - ")
		.ok_or_else(|| l.bad("a tag, a length and a name"))?;
	let (len, name) = rest
		.split_once(" - ")
		.ok_or_else(|| l.bad("a length and a name"))?;
	let is_hex =
		|s: &str| s.len() % 2 == 0 && s.bytes().all(|b| matches!(b, b'0'..=b'9' | b'A'..=b'F'));
	if tag.is_empty() || !is_hex(tag) {
		return Err(l.bad("a tag in hex"));
	}
	let len = if len == "?? bytes" {
		None
	} else {
		let (n, unit) = len.split_once(' ').ok_or_else(|| l.bad("a length"))?;
		let n: usize = n.parse().map_err(|_| l.bad("a length"))?;
		if unit != if n == 1 { "byte" } else { "bytes" } {
			return Err(l.bad("a length in bytes"));
		}
		Some(n)
	};
	let mut node = Shown {
		tag: unhex(tag),
		len,
		name: name.to_owned(),
		raw: None,
		masked: false,
		parsed: None,
		kids: Vec::new(),
	};
	l.pos += 1;
	if l.peek(depth) == Some("* Masked *") {
		node.masked = true;
		l.pos += 1;
	} else if l.peek(depth) == Some("Raw:") {
		l.pos += 1;
		let mut bytes = Vec::new();
		while let Some(line) = l.peek(depth + 1) {
			if bytes.len() % 16 != 0 {
				return Err(l.bad("the end of the raw bytes (the last line was short)"));
			}
			bytes.extend(parse_hex_line(line).ok_or_else(|| l.bad("a line of raw bytes"))?);
			l.pos += 1;
		}
		if bytes.is_empty() {
			return Err(l.bad("raw bytes"));
		}
		node.raw = Some(bytes);
	}
	if l.peek(depth) == Some("Parsed:") {
		l.pos += 1;
		let mut parsed = Vec::new();
		while let Some(line) = l.peek(depth + 1) {
			parsed.push(line.to_owned());
			l.pos += 1;
		}
		if parsed.is_empty() {
			return Err(l.bad("the decoded value"));
		}
		node.parsed = Some(parsed);
	}
	if l.peek(depth) == Some("Constructed Data Object's Child Tags:") {
		l.pos += 1;
		node.kids = parse_block(l, depth + 1)?;
	}
	Ok(node)
}

/// Reads `XX XX ...`, padded to 16 bytes, two spaces, and the ASCII readout.
fn parse_hex_line(line: &str) -> Option<Vec<u8>> {
	let b = line.as_bytes();
	if b.len() < 50 || b.len() > 65 || !line.is_ascii() {
		return None;
	}
	let n = b.len() - 49;
	let mut bytes = Vec::with_capacity(n);
	for i in 0..16 {
		let cell = &b[i * 3..i * 3 + 2];
		if i < n {
			if !cell
				.iter()
				.all(|c| matches!(c, b'0'..=b'9' | b'A'..=b'F'))
			{
				return None;
			}
			bytes.push(unhex(std::str::from_utf8(cell).ok()?)[0]);
		} else if cell != b"  " {
			return None;
		}
		if b[i * 3 + 2] != b' ' {
			return None;
		}
	}
	if b[48] != b' ' {
		return None;
	}
	for (byte, c) in bytes.iter().zip(&b[49..]) {
		let want = if matches!(byte, 0x20..=0x7E) { *byte } else { b'.' };
		if *c != want {
			return None;
		}
	}
	Some(bytes)
}

/// Compares tags, lengths, raw bytes, masking and children.
pub fn same_structure(want: &[Node], got: &[Shown]) -> Result<(), String> {
	fn show(tag: &[u8]) -> String {
		crate::wire::hex(tag)
	}
	for (i, (w, g)) in want.iter().zip(got).enumerate() {
		if w.tag != g.tag {
			return Err(format!(
				"object {}: tag {} was encoded, {} is shown",
				i + 1,
				show(&w.tag),
				show(&g.tag)
			));
		}
		let name = format!("object {} ({})", i + 1, show(&w.tag));
		if w.masked != g.masked {
			return Err(format!(
				"{name}: {} but shown as {}",
				if w.masked { "wholly masked" } else { "not masked" },
				if g.masked { "masked" } else { "not masked" }
			));
		}
		let want_len = (!w.masked).then_some(w.value.len());
		if want_len != g.len {
			return Err(format!(
				"{name}: length should be shown as {want_len:?}, is {:?}",
				g.len
			));
		}
		let want_raw = (!w.masked && !w.value.is_empty()).then_some(&w.value);
		if want_raw != g.raw.as_ref() {
			return Err(format!("{name}: the raw value isn't the encoded one"));
		}
		if w.masked && g.parsed.is_some() {
			return Err(format!("{name}: a masked value is shown decoded"));
		}
		same_structure(&w.kids, &g.kids).map_err(|e| format!("in {name}: {e}"))?;
	}
	if want.len() != got.len() {
		return Err(format!(
			"{} objects were encoded, {} are shown",
			want.len(),
			got.len()
		));
	}
	Ok(())
}

pub fn count(nodes: &[Shown]) -> usize {
	nodes.iter().map(|n| 1 + count(&n.kids)).sum()
}

// Bit diagrams

/// A bit diagram as shown: the binary row, the optional bracket row, and the
/// explanations with what stands before them.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Diagram {
	pub binary:       String,
	pub brackets:     Option<String>,
	pub explanations: Vec<(String, String)>,
}

/// Splits the lines of one diagram. The binary row comes first; a row without
/// an arm's end (`\u{2514} `) is a bracket row.
pub fn parse_diagram(lines: &[String]) -> Result<Diagram, String> {
	let Some((binary, rest)) = lines.split_first() else {
		return Err("no bit diagram is shown".to_owned());
	};
	if binary.is_empty() || !binary.chars().all(|c| matches!(c, '0' | '1' | ' ')) {
		return Err(format!("expected a binary row, found {}", clip(binary, 160)));
	}
	let mut d = Diagram {
		binary:       binary.clone(),
		brackets:     None,
		explanations: Vec::new(),
	};
	for (i, line) in rest.iter().enumerate() {
		// The arm ends at the first corner that only arms and spaces precede
		match line.split_once('\u{2514}') {
			Some((arms, text)) if arms.chars().all(|c| c == ' ' || c == '\u{2502}') => {
				let text = text.strip_prefix(' ').unwrap_or(text);
				d.explanations.push((arms.to_owned(), text.to_owned()));
			}
			_ if i == 0 => d.brackets = Some(line.clone()),
			_ => {
				return Err(format!(
					"expected an explanation's arm, found {}",
					clip(line, 160)
				))
			}
		}
	}
	Ok(d)
}

/// The text without its colour codes.
pub fn plain(text: &str) -> String {
	let mut out = String::with_capacity(text.len());
	let mut rest = text;
	while let Some(at) = rest.find("\u{1b}[") {
		let codes = &rest[at + 2..];
		let len = codes
			.bytes()
			.take_while(|b| b.is_ascii_digit() || *b == b';')
			.count();
		if codes[len..].starts_with('m') {
			out.push_str(&rest[..at]);
			rest = &codes[len + 1..];
		} else {
			out.push_str(&rest[..at + 2]);
			rest = codes;
		}
	}
	out.push_str(rest);
	out
}

/// Coloured output, read.
#[derive(Clone, Debug, Default)]
pub struct Coloured {
	/// The text, with a mark at the end of each line that shows a severity.
	pub marked: String,
	/// Something's left switched on.
	pub left_on: bool,
	/// Something that was on when a line ended was still on in the next one's text.
	pub carried: bool,
	/// Codes other than those for colour and emphasis.
	pub odd: bool,
}
pub const WARNING_MARK: &str = "\u{1}warning";
pub const ERROR_MARK: &str = "\u{1}error";
pub const MIXED_MARK: &str = "\u{1}mixed";
pub const OTHER_MARK: &str = "\u{1}another colour";

#[derive(Clone, Copy, Default, PartialEq, Eq)]
struct Pen {
	fg:    u8,
	other: bool,
}
const YELLOW: u8 = 3;
const RED: u8 = 1;

/// Reads the codes. Colours are numbered as in the ANSI set; 0 is no colour (and
/// black).
pub fn read_colours(text: &str) -> Coloured {
	let mut out = Coloured::default();
	let mut pen = Pen::default();
	// Colours of the line's characters other than spaces and diagram lines
	let mut seen: Vec<u8> = Vec::new();
	// Whether the line ends a line of a diagram, so explains something
	let mut explains = false;
	// What was still on when the line before ended, until a code on this line
	let mut carried = false;
	let mut rest = text;
	while let Some(c) = rest.chars().next() {
		if let Some(codes) = rest.strip_prefix("\u{1b}[") {
			let len = codes.bytes().take_while(|b| b.is_ascii_digit() || *b == b';').count();
			if codes[len..].starts_with('m') {
				apply_codes(&codes[..len], &mut pen);
				carried = false;
				rest = &codes[len + 1..];
				continue;
			}
		}
		if c == '\u{1b}' {
			out.odd = true;
		}
		if c == '\n' {
			out.marked.push_str(mark(&seen, explains));
			seen.clear();
			explains = false;
			carried = pen != Pen::default();
		} else if !c.is_whitespace() && !('\u{2500}'..='\u{257f}').contains(&c) {
			seen.push(pen.fg);
		}
		out.carried |= carried && !c.is_whitespace();
		explains |= c == '\u{2514}';
		out.marked.push(c);
		rest = &rest[c.len_utf8()..];
	}
	out.marked.push_str(mark(&seen, explains));
	out.left_on = pen != Pen::default();
	out
}
fn mark(seen: &[u8], explains: bool) -> &'static str {
	let (yellow, red) = (seen.contains(&YELLOW), seen.contains(&RED));
	let whole = seen.windows(2).all(|w| w[0] == w[1]);
	match (yellow, red) {
		(false, false) if explains && seen.iter().any(|c| *c != 0) => OTHER_MARK,
		(false, false) => "",
		_ if !whole => MIXED_MARK,
		(true, _) => WARNING_MARK,
		_ => ERROR_MARK,
	}
}
fn apply_codes(codes: &str, pen: &mut Pen) {
	let mut codes = codes.split(';').map(|c| c.parse::<u32>().unwrap_or(0));
	while let Some(c) = codes.next() {
		match c {
			0 => *pen = Pen::default(),
			30..=37 => pen.fg = (c - 30) as u8,
			90..=97 => pen.fg = (c - 90) as u8,
			39 => pen.fg = 0,
			38 => match codes.next() {
				Some(5) => pen.fg = codes.next().map_or(0, |n| if n < 16 { n % 8 } else { 7 }) as u8,
				_ => {
					codes.by_ref().take(3).for_each(drop);
					pen.fg = 7;
				}
			},
			1..=9 | 40..=48 | 100..=107 => pen.other = true,
			21..=29 | 49 => pen.other = false,
			_ => {}
		}
	}
}
