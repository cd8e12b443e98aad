//! A small model of a terminal: what is on the screen after a byte stream.
use unicode_segmentation::UnicodeSegmentation;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Look {
    pub fg: Option<(u8, u8, u8)>,
    pub bg: Option<(u8, u8, u8)>,
    /// bold, dim, italic, underline, strike, reverse
    pub attrs: [bool; 6],
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TCell {
    pub text: String,
    /// 0: right half of a wide glyph; 1 or 2: its width; 9: undefined (half overwritten)
    pub w: u8,
    pub look: Look,
}

#[derive(Clone)]
pub struct Term {
    pub cols: usize,
    pub rows: usize,
    pub cells: Vec<TCell>,
    x: usize,
    y: usize,
    pending: bool,
    look: Look,
}

impl Term {
    /// A terminal whose screen is full of rubbish.
    pub fn dirty(cols: usize, rows: usize) -> Self {
        let c = TCell { text: "#".into(), w: 1, look: Look { fg: Some((1, 1, 1)), bg: Some((2, 2, 2)), attrs: [true; 6] } };
        Term { cols, rows, cells: vec![c; cols * rows], x: cols.saturating_sub(1), y: 0, pending: false, look: Look { fg: Some((7, 7, 7)), bg: None, attrs: [true, false, false, false, false, true] } }
    }

    pub fn feed(&mut self, bytes: &[u8]) -> Result<(), String> {
        let s = std::str::from_utf8(bytes).map_err(|e| format!("output is not UTF-8: {e}"))?;
        let mut rest = s;
        while !rest.is_empty() {
            if let Some(r) = rest.strip_prefix('\x1b') {
                let r = r.strip_prefix('[').ok_or_else(|| format!("unexpected escape {:?}", &rest[..rest.len().min(8)]))?;
                let end = r.find(|c: char| !(c.is_ascii_digit() || c == ';')).ok_or("truncated escape")?;
                let params: Vec<u32> = if r[..end].is_empty() { vec![] } else { r[..end].split(';').map(|p| p.parse().unwrap_or(0)).collect() };
                match r.as_bytes()[end] {
                    b'H' => {
                        self.y = (*params.first().unwrap_or(&1)).max(1) as usize - 1;
                        self.x = (*params.get(1).unwrap_or(&1)).max(1) as usize - 1;
                        if self.y >= self.rows || self.x >= self.cols {
                            return Err(format!("cursor moved outside the screen: {},{}", self.x, self.y));
                        }
                        self.pending = false;
                    }
                    b'm' => self.sgr(&params)?,
                    c => return Err(format!("unexpected control sequence ESC[{}{}", &r[..end], c as char)),
                }
                rest = &r[end + 1..];
            } else {
                let end = rest.find('\x1b').unwrap_or(rest.len());
                for g in rest[..end].graphemes(true) {
                    self.print(g)?;
                }
                rest = &rest[end..];
            }
        }
        Ok(())
    }

    fn sgr(&mut self, p: &[u32]) -> Result<(), String> {
        let mut i = 0;
        if p.is_empty() {
            self.look = Look::default();
        }
        while i < p.len() {
            match p[i] {
                0 => self.look = Look::default(),
                1 => self.look.attrs[0] = true,
                2 => self.look.attrs[1] = true,
                3 => self.look.attrs[2] = true,
                4 => self.look.attrs[3] = true,
                9 => self.look.attrs[4] = true,
                7 => self.look.attrs[5] = true,
                39 => self.look.fg = None,
                49 => self.look.bg = None,
                22 => { self.look.attrs[0] = false; self.look.attrs[1] = false }
                23 => self.look.attrs[2] = false,
                24 => self.look.attrs[3] = false,
                29 => self.look.attrs[4] = false,
                27 => self.look.attrs[5] = false,
                38 | 48 if p.get(i + 1) == Some(&2) && i + 4 < p.len() => {
                    let c = Some((p[i + 2] as u8, p[i + 3] as u8, p[i + 4] as u8));
                    if p[i] == 38 { self.look.fg = c } else { self.look.bg = c }
                    i += 4;
                }
                x => return Err(format!("unexpected SGR {x}")),
            }
            i += 1;
        }
        Ok(())
    }

    fn print(&mut self, g: &str) -> Result<(), String> {
        let first = g.chars().next().unwrap();
        if first.is_control() {
            return Err(format!("control character {first:?} sent to the terminal"));
        }
        let w = unicode_display_width::width(g) as usize;
        if unicode_width_zero(first) {
            return Err(format!("invisible character {first:?} sent to the terminal"));
        }
        if self.pending || self.x + w > self.cols {
            self.x = 0;
            self.y += 1;
            self.pending = false;
            if self.y >= self.rows {
                return Err("output scrolls the screen".into());
            }
        }
        if self.y >= self.rows || self.x + w > self.cols {
            return Err(format!("{g:?} does not fit on the screen at {},{}", self.x, self.y));
        }
        let base = self.y * self.cols;
        // Overwriting half of a wide glyph makes its other half undefined.
        let (a, b) = (base + self.x, base + self.x + w);
        if self.cells[a].w == 0 {
            self.cells[a - 1].w = 9;
        }
        if b < base + self.cols && self.cells[b].w == 0 {
            self.cells[b].w = 9;
        }
        for k in a..b {
            self.cells[k] = TCell { text: if k == a { g.into() } else { String::new() }, w: if k == a { w as u8 } else { 0 }, look: self.look.clone() };
        }
        self.x += w;
        if self.x >= self.cols {
            self.x = self.cols - 1;
            self.pending = true;
        }
        Ok(())
    }
}

/// Characters that take no room on a terminal when they stand alone.
pub fn unicode_width_zero(c: char) -> bool {
    matches!(c, '\u{ad}' | '\u{300}'..='\u{36f}' | '\u{200b}'..='\u{200f}' | '\u{2060}'..='\u{2064}' | '\u{feff}' | '\u{fe00}'..='\u{fe0f}')
}
