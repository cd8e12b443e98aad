//! C31 the SVG and text exports show the screen.
use crossterm::style::Color;
use mc::term::*;
use mc::*;
use std::collections::HashMap;
use tcss::types::RgbaColor;
use textual::segment::{Segment, Style};
use textual::strip::Strip;
use textual::Canvas;
use unicode_segmentation::UnicodeSegmentation;

type Res = Result<(), String>;
type Rgb = (u8, u8, u8);

/// An XML element: name, attributes, children and text.
#[derive(Debug, Default)]
struct Node {
    name: String,
    attrs: HashMap<String, String>,
    kids: Vec<Node>,
    text: String,
}

/// A strict parser for the part of XML that matters here.
fn parse_xml(s: &str) -> Result<Node, String> {
    let mut stack = vec![Node::default()];
    let mut rest = s;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("<!--") {
            let end = r.find("-->").ok_or("open comment")?;
            ensure!(!r[..end].contains("--"), "-- within a comment");
            rest = &r[end + 3..];
        } else if let Some(r) = rest.strip_prefix("</") {
            let end = r.find('>').ok_or("open tag")?;
            let node = stack.pop().unwrap();
            ensure!(node.name == r[..end].trim_end() && !stack.is_empty(), "</{}> ends <{}>", &r[..end], node.name);
            stack.last_mut().unwrap().kids.push(node);
            rest = &r[end + 1..];
        } else if let Some(r) = rest.strip_prefix('<') {
            let name_end = r.find(|c: char| !c.is_ascii_alphanumeric() && c != '-').ok_or("open tag")?;
            let mut node = Node { name: r[..name_end].to_string(), ..Default::default() };
            ensure!(!node.name.is_empty(), "a tag without a name: {:?}", &r[..r.len().min(20)]);
            let mut r = &r[name_end..];
            loop {
                let t = r.trim_start();
                if let Some(x) = t.strip_prefix("/>") {
                    stack.last_mut().unwrap().kids.push(node);
                    rest = x;
                    break;
                }
                if let Some(x) = t.strip_prefix('>') {
                    stack.push(node);
                    rest = x;
                    break;
                }
                ensure!(t.len() < r.len(), "no blank before an attribute: {:?}", t.chars().take(20).collect::<String>());
                let (key, x) = t.split_once("=\"").ok_or("an attribute without a value")?;
                let (value, x) = x.split_once('"').ok_or("an open attribute")?;
                ensure!(key.chars().all(|c| c.is_ascii_alphanumeric() || c == '-'), "the attribute {key:?}");
                ensure!(!value.contains('<'), "< in an attribute");
                ensure!(node.attrs.insert(key.to_string(), unescape(value)?).is_none(), "{key} twice");
                r = x;
            }
        } else {
            let end = rest.find('<').unwrap_or(rest.len());
            stack.last_mut().unwrap().text.push_str(&unescape(&rest[..end])?);
            rest = &rest[end..];
        }
    }
    ensure!(stack.len() == 1, "<{}> isn't closed", stack.last().unwrap().name);
    let mut top = stack.pop().unwrap();
    ensure!(top.kids.len() == 1 && top.text.trim().is_empty(), "{} roots, text {:?}", top.kids.len(), top.text);
    Ok(top.kids.pop().unwrap())
}

fn unescape(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut parts = s.split('&');
    out.push_str(parts.next().unwrap());
    for p in parts {
        let (name, rest) = p.split_once(';').ok_or_else(|| format!("a lone & in {s:?}"))?;
        out.push_str(&match name {
            "lt" => "<".to_string(),
            "gt" => ">".to_string(),
            "amp" => "&".to_string(),
            "quot" => "\"".to_string(),
            "apos" => "'".to_string(),
            n => {
                let n = n.strip_prefix('#').ok_or_else(|| format!("&{name};"))?;
                let v = match n.strip_prefix('x') {
                    Some(h) => u32::from_str_radix(h, 16),
                    None => n.parse(),
                };
                char::from_u32(v.map_err(|e| e.to_string())?).ok_or("no such character")?.to_string()
            }
        });
        out.push_str(rest);
    }
    let bad = out.chars().find(|c| c.is_control() && !matches!(c, '\n' | '\t' | '\r'));
    ensure!(bad.is_none(), "{bad:?} is not allowed in XML");
    Ok(out)
}

fn hex(s: &str) -> Result<Rgb, String> {
    let h = s.strip_prefix('#').filter(|h| h.len() == 6).ok_or_else(|| format!("the colour {s:?}"))?;
    let b = |i: usize| u8::from_str_radix(&h[i..i + 2], 16).map_err(|e| format!("{s}: {e}"));
    Ok((b(0)?, b(2)?, b(4)?))
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Px {
    text: String,
    fg: Option<Rgb>,
    bg: Option<Rgb>,
    bold: bool,
    italic: bool,
    underline: bool,
    strike: bool,
}

fn width(g: &str) -> usize {
    Segment::new(g).cell_length()
}

/// Draws what the SVG says into cells.
fn rasterize(svg: &str, cols: usize, rows: usize) -> Result<Vec<Px>, String> {
    let root = parse_xml(svg)?;
    ensure!(root.name == "svg", "<{}>", root.name);
    let num = |n: &Node, k: &str| n.attrs.get(k).ok_or(format!("<{}> has no {k}", n.name))?.parse::<f64>().map_err(|e| format!("{k} {e}"));
    let view: Vec<f64> = root.attrs["viewBox"].split(' ').map(|v| v.parse().unwrap()).collect();
    let (cw, lh) = (view[2] / cols as f64, view[3] / rows as f64);
    ensure!(cw > 0.0 && lh > 0.0 && view[0] == 0.0 && view[1] == 0.0, "viewBox {view:?}");
    // The rules of the style sheet
    let mut fills = HashMap::new();
    fn walk<'a>(n: &'a Node, in_defs: bool, f: &mut dyn FnMut(&'a Node, bool) -> Res) -> Res {
        f(n, in_defs)?;
        for k in &n.kids {
            walk(k, in_defs || n.name == "defs", f)?;
        }
        Ok(())
    }
    walk(&root, false, &mut |n, _| {
        if n.name == "style" {
            for line in n.text.lines() {
                if let Some((sel, rest)) = line.trim().split_once(" { fill: ") {
                    let color = hex(rest.trim_end_matches('}').trim().trim_end_matches(';'))?;
                    let old = fills.insert(sel.trim_start_matches('.').to_string(), color);
                    ensure!(old.is_none(), "two rules for {sel}");
                }
            }
        }
        Ok(())
    })?;
    let blank = Px { text: " ".into(), fg: None, bg: None, bold: false, italic: false, underline: false, strike: false };
    let mut out = vec![blank; cols * rows];
    let mut written = vec![false; cols * rows];
    let near = |v: f64| -> Result<usize, String> {
        ensure!((v - v.round()).abs() < 0.02 && v.round() >= 0.0, "{v} is not a whole number of cells");
        Ok(v.round() as usize)
    };
    let mut texts_seen = false;
    walk(&root, false, &mut |n, in_defs| {
        if in_defs {
            return Ok(());
        }
        match n.name.as_str() {
            "rect" => {
                ensure!(!texts_seen, "a background lies over text");
                let color = hex(n.attrs.get("fill").ok_or("a rect without fill")?)?;
                let (x0, y0) = (near(num(n, "x")? / cw)?, near(num(n, "y")? / lh)?);
                let (w, h) = (near(num(n, "width")? / cw)?, near(num(n, "height")? / lh)?);
                ensure!(x0 + w <= cols && y0 + h <= rows, "a background reaches beyond the screen");
                for y in y0..y0 + h {
                    for x in x0..x0 + w {
                        out[y * cols + x].bg = Some(color);
                    }
                }
            }
            "text" => {
                texts_seen = true;
                let x0 = near(num(n, "x")? / cw)?;
                let y = num(n, "y")? / lh;
                ensure!(y > 0.0 && y < rows as f64, "a text at row {y}");
                let y = y.floor() as usize;
                let clip = n.attrs.get("clip-path").map(|c| c.as_str());
                ensure!(clip.is_none() || clip == Some(&format!("url(#terminal-line-{y})")), "text of line {y} is clipped to {clip:?}");
                let style = n.attrs.get("style").cloned().unwrap_or_default();
                let mut bold = false;
                let (mut italic, mut underline, mut strike) = (false, false, false);
                for rule in style.split(';').map(|r| r.trim()).filter(|r| !r.is_empty()) {
                    let (k, v) = rule.split_once(':').ok_or("a rule without a value")?;
                    match (k.trim(), v.trim()) {
                        ("font-weight", "bold") => bold = true,
                        ("font-style", "italic") => italic = true,
                        ("text-decoration", d) => {
                            underline = d.split(' ').any(|d| d == "underline");
                            strike = d.split(' ').any(|d| d == "line-through");
                        }
                        // Other rules don't matter here
                        _ => (),
                    }
                }
                let fg = n.attrs.get("class").and_then(|c| fills.get(c)).copied();
                let text = n.text.replace('\u{a0}', " ");
                let mut x = x0;
                for g in text.graphemes(true) {
                    let w = width(g);
                    ensure!(x + w <= cols, "{text:?} reaches beyond the screen");
                    for i in x..x + w.max(1) {
                        let at = y * cols + i;
                        ensure!(!written[at], "column {i} of row {y} is written twice");
                        written[at] = true;
                        let bg = out[at].bg;
                        out[at] = Px { text: if i == x { g.to_string() } else { String::new() }, fg, bg, bold, italic, underline, strike };
                    }
                    x += w;
                }
                let len = near(num(n, "textLength")? / cw)?;
                ensure!(len == x - x0, "{text:?} takes {} columns, but is squeezed into {len}", x - x0);
            }
            _ => (),
        }
        Ok(())
    })?;
    Ok(out)
}

fn rgb(c: Option<Color>) -> Result<Option<Rgb>, String> {
    match c {
        Some(Color::Rgb { r, g, b }) => Ok(Some((r, g, b))),
        None | Some(Color::Reset) => Ok(None),
        other => Err(format!("colour {other:?}")),
    }
}

/// `swapped`: whether reverse video has to show.
fn check_svg(canvas: &Canvas, what: &str, swapped: bool) -> Res {
    let (cols, rows) = canvas.size();
    let (cols, rows) = (cols as usize, rows as usize);
    let svg = canvas.to_svg(Some("a <title>"));
    ensure!(svg == canvas.to_svg(Some("a <title>")), "{what}: the same screen gives two pictures");
    let have = rasterize(&svg, cols, rows).map_err(|e| format!("{what}: {e}"))?;
    for i in 0..cols * rows {
        let k = canvas.cell_at(i);
        let h = &have[i];
        let at = format!("{what}: column {} of row {} {:?}", i % cols, i / cols, k.symbol);
        let text = if k.continuation { "" } else { &k.symbol };
        ensure!(h.text == text, "{at} shows {:?}", h.text);
        let (mut fg, mut bg) = (rgb(k.fg)?, rgb(k.bg)?);
        if k.attrs.reverse {
            if fg.is_none() || bg.is_none() {
                // What the picture takes for the terminal's own colours is its business
                continue;
            }
            // See the phase "reverse video"
            if h.bg == bg && (h.fg == fg || text.trim().is_empty() && !k.attrs.underline && !k.attrs.strike) && !swapped {
                (fg, bg) = (bg, fg);
            }
            (fg, bg) = (bg, fg);
        }
        ensure!(h.bg == bg, "{at} has the background {:?}, not {bg:?}", h.bg);
        if !text.trim().is_empty() || !k.continuation && (k.attrs.underline || k.attrs.strike) {
            ensure!(h.fg == fg, "{at} has the colour {:?}, not {fg:?}", h.fg);
            ensure!(h.bold == k.attrs.bold && h.italic == k.attrs.italic, "{at} bold {} italic {}", h.bold, h.italic);
        }
        ensure!(h.underline == k.attrs.underline && h.strike == k.attrs.strike, "{at} underline {} strike {}", h.underline, h.strike);
    }
    Ok(())
}

fn check_text(canvas: &Canvas, what: &str) -> Res {
    let (cols, rows) = canvas.size();
    let (cols, rows) = (cols as usize, rows as usize);
    let lines: Vec<String> = (0..rows)
        .map(|y| {
            (0..cols)
                .map(|x| canvas.cell_at(y * cols + x))
                .map(|k| if k.continuation { " ".to_string() } else { k.symbol.clone() })
                .collect::<String>()
                .trim_end()
                .to_string()
        })
        .collect();
    ensure!(canvas.to_snapshot() == lines.join("\n"), "{what}: the text is {:?}", canvas.to_snapshot());
    // A wide glyph's second column is written as a blank: those lines can't be replayed
    if (0..cols * rows).any(|i| canvas.cell_at(i).continuation) {
        return Ok(());
    }
    let ansi = canvas.to_ansi_snapshot();
    let mut term = Term::dirty(cols, rows);
    // Written line by line to a terminal that starts in its default style
    let ansi: String = ansi.split('\n').enumerate().map(|(y, l)| format!("\x1b[{};1H\x1b[0m{l}", y + 1)).collect();
    term.feed(ansi.as_bytes()).map_err(|e| format!("{what}: {e} in {ansi:?}"))?;
    for i in 0..cols * rows {
        let k = canvas.cell_at(i);
        let a = k.attrs;
        let want = Look { fg: rgb(k.fg)?, bg: rgb(k.bg)?, attrs: [a.bold, a.dim, a.italic, a.underline, a.strike, a.reverse] };
        let t = &term.cells[i];
        ensure!(t.text == k.symbol && t.look == want, "{what}: column {} of row {} shows {:?} {:?}, not {:?} {want:?}", i % cols, i / cols, t.text, t.look, k.symbol);
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
struct Ink(&'static str, Option<Rgb>, Option<Rgb>, u8);

fn strip(inks: &[Ink]) -> Strip {
    Strip::from_segments(
        inks.iter()
            .map(|Ink(t, fg, bg, a)| {
                let c = |c: &Option<Rgb>| c.map(|(r, g, b)| RgbaColor::rgb(r, g, b));
                let bit = |n: u8| a & (1 << n) != 0;
                Segment::styled(*t, Style { fg: c(fg), bg: c(bg), bold: bit(0), italic: bit(1), underline: bit(2), strike: bit(3), dim: bit(4), reverse: bit(5) })
            })
            .collect::<Vec<_>>(),
    )
}

const RED: Option<Rgb> = Some((255, 0, 0));
const GREEN: Option<Rgb> = Some((1, 200, 3));
const BLUE: Option<Rgb> = Some((0, 0, 128));

fn inks(texts: &[&'static str], fgs: &[Option<Rgb>], bgs: &[Option<Rgb>], attrs: &[u8]) -> &'static [Ink] {
    let mut v = vec![];
    for t in texts {
        for f in fgs {
            for b in bgs {
                for a in attrs {
                    v.push(Ink(t, *f, *b, *a));
                }
            }
        }
    }
    v.leak()
}

fn c31(ctx: &Ctx) {
    ctx.assume("a dimmed colour and the terminal's own colours may look any way in the picture; so may the width of a wide glyph in the text exports");
    let go = |canvas: &Canvas, k: &mut W, what: &str| -> Res {
        k.steps(canvas.size().0 as u64 * canvas.size().1 as u64);
        check_svg(canvas, what, false)?;
        check_text(canvas, what)
    };
    let canvas_of = |rows: &[Vec<Ink>], cols: u16| {
        let mut canvas = Canvas::new(cols, rows.len() as u16);
        for (y, r) in rows.iter().enumerate() {
            canvas.render_strip(&strip(r), 0, y as i32);
        }
        canvas
    };
    // Pairs over everything
    let all = inks(&["a", " ", "<", "&", "\"", "'", "字", "e\u{301}", "─", "]]>"], &[None, RED, GREEN], &[None, BLUE, RED], &[0, 1, 2, 4, 8, 12, 16, 32, 33, 63]);
    let n = all.len() as u64;
    ctx.explore("pairs of texts in all styles", n * n, move |i| { let mut m = Mix(i); format!("{:?} {:?}", m.of(all), m.of(all)) }, move |i, k| {
        let mut m = Mix(i);
        let row = vec![*m.of(all), *m.of(all)];
        let cols = width(row[0].0) + width(row[1].0) + m.pick(2);
        k.state(&format!("{row:?}"));
        go(&canvas_of(&[row], cols as u16), k, "pair")
    });
    ctx.explore("reverse video", 2, |i| ["red on blue", "blue on red"][i as usize].to_string(), move |i, _| {
        let (fg, bg) = [(RED, BLUE), (BLUE, RED)][i as usize];
        check_svg(&canvas_of(&[vec![Ink("a", fg, bg, 32)]], 1), "reversed", true)
    });
    // Longer rows over a small alphabet, and what a row passes on to the next one
    let few = inks(&["a", " ", "字"], &[None, RED], &[None, BLUE], &[0, 1, 32]);
    let n = few.len() as u64;
    let len = ctx.pick(3, 4);
    for (rows, cols) in [(1usize, len as usize), (2, len as usize)] {
        ctx.explore(
            if rows == 1 { "rows of several texts" } else { "two rows" },
            n.pow(len as u32) * 2,
            move |i| { let mut m = Mix(i); format!("{:?}", (0..len).map(|_| *m.of(few)).collect::<Vec<_>>()) },
            move |i, k| {
                let mut m = Mix(i);
                let v: Vec<Ink> = (0..len).map(|_| *m.of(few)).collect();
                let wide = m.pick(2) == 1;
                let grid = if rows == 1 { vec![v] } else { vec![v[..1].to_vec(), v[1..].to_vec()] };
                let need = grid.iter().map(|r| r.iter().map(|k| width(k.0)).sum::<usize>()).max().unwrap();
                let cols = if wide { need + 1 } else { cols.min(need) };
                go(&canvas_of(&grid, cols as u16), k, "rows")
            },
        );
    }
    // Screens of every size: positions stay exact far to the right and down
    let (mw, mh) = (ctx.pick(140u64, 300), ctx.pick(40u64, 80));
    ctx.explore("screens of every size", mw * mh * 2, move |i| { let mut m = Mix(i); format!("{}x{} {}", m.pick(mw) + 1, m.pick(mh) + 1, ["", "in long runs"][m.pick(2)]) }, move |i, k| {
        let mut m = Mix(i);
        let (w, h) = (m.pick(mw) + 1, m.pick(mh) + 1);
        let mut canvas = Canvas::new(w as u16, h as u16);
        let long = if m.pick(2) == 1 { 1000 } else { 1 };
        let letters = ["x", "y", "z"];
        for y in 0..h {
            let row: Vec<Ink> = (0..w).map(|x| Ink(letters[(x + y) % 3], [None, RED, GREEN][(x / 2 / long + y) % 3], [None, BLUE][(x / 5 / long + y) % 2], [0, 1][(x / 7 / long) % 2])).collect();
            canvas.render_strip(&strip(&row), 0, y as i32);
        }
        go(&canvas, k, "size")
    });
}

fn main() {
    main_with(&[("C31", c31)])
}
