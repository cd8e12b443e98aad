//! C32 the box of a widget: border, outline, titles, padding, aligned content, hatch, tint.
//! C36 links in text.
use crossterm::style::Color;
use mc::*;
use tcss::types::border::{Border, BorderEdge, BorderKind};
use tcss::types::geometry::{Scalar, Spacing};
use tcss::types::*;
use tcss::ComputedStyle;
use textual::widget::static_widget::Static;
use textual::widget::Widget;
use textual::{Canvas, KeyModifiers, MouseButton, MouseEvent, MouseEventKind, Region};
use unicode_segmentation::UnicodeSegmentation;

use BorderKind::*;
type Rgb = (u8, u8, u8);

/// Top, middle and bottom row of a kind: corner or side, line, corner or side.
fn glyphs(k: BorderKind) -> [&'static str; 3] {
    match k {
        None | Hidden | Blank => ["   ", "   ", "   "],
        Round => ["╭─╮", "│ │", "╰─╯"],
        Solid => ["┌─┐", "│ │", "└─┘"],
        Double => ["╔═╗", "║ ║", "╚═╝"],
        Heavy => ["┏━┓", "┃ ┃", "┗━┛"],
        Ascii => ["+-+", "| |", "+-+"],
        Dashed => ["┏╍┓", "╏ ╏", "┗╍┛"],
        Thick => ["█▀█", "█ █", "█▄█"],
        Tall => ["▊▔▎", "▊ ▎", "▊▁▎"],
        Panel => ["▊█▎", "▊ ▎", "▊▁▎"],
        Wide => ["▁▁▁", "▎ ▊", "▔▔▔"],
        Inner => ["▗▄▖", "▐ ▌", "▝▀▘"],
        Outer => ["▛▀▜", "▌ ▐", "▙▄▟"],
        Block => ["▀▀▀", "█ █", "▄▄▄"],
        Hkey => ["▔▔▔", "   ", "▁▁▁"],
        Vkey => ["▏ ▕", "▏ ▕", "▏ ▕"],
    }
}

/// Where the colour behind a glyph comes from: the widget, its parent, or both swapped.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Zone {
    Widget,
    Parent,
    /// Drawn in reverse: the parent's background shows through the glyph.
    ParentReversed,
    /// Drawn in reverse: the widget's background shows through the glyph.
    WidgetReversed,
}

fn zone(k: BorderKind, row: usize, col: usize) -> Zone {
    match k {
        Tall | Panel => [Zone::ParentReversed, Zone::Widget, Zone::Parent][col],
        Wide if row == 1 => [Zone::Widget, Zone::Parent, Zone::WidgetReversed][col],
        Wide | Inner => Zone::Parent,
        Block if row != 1 => Zone::Parent,
        _ => Zone::Widget,
    }
}

fn c(r: u8, g: u8, b: u8) -> RgbaColor {
    RgbaColor::rgb(r, g, b)
}

#[derive(Clone, Debug, PartialEq, Eq)]
struct Px {
    text: String,
    fg: Option<Rgb>,
    bg: Option<Rgb>,
    reverse: bool,
}

const PARENT: Rgb = (10, 20, 30);
/// Around the widget there is room where nothing may be drawn.
const OFF: usize = 2;

fn rgb(c: Option<Color>) -> Option<Rgb> {
    match c {
        Some(Color::Rgb { r, g, b }) => Some((r, g, b)),
        Option::None | Some(Color::Reset) => Option::None,
        other => panic!("colour {other:?}"),
    }
}

/// Draws the widget `w` x `h` on a background of the parent's colour. Fails if it draws outside.
fn draw(widget: &dyn Widget<String>, w: usize, h: usize) -> Result<Vec<Vec<Px>>, String> {
    let (cw, ch) = (w + 2 * OFF + 8, h + 2 * OFF);
    let mut canvas = Canvas::new(cw as u16, ch as u16);
    let inside = |x: usize, y: usize| x >= OFF && x < OFF + w && y >= OFF && y < OFF + h;
    for y in 0..ch {
        for x in 0..cw {
            let mark = if inside(x, y) { ' ' } else { '#' };
            canvas.put_char(x as i32, y as i32, mark, Option::None, Some(c(PARENT.0, PARENT.1, PARENT.2)), Default::default());
        }
    }
    widget.render(&mut canvas, Region::new(OFF as i32, OFF as i32, w as i32, h as i32));
    let at = |x: usize, y: usize| canvas.cell_at(y * cw + x);
    for y in 0..ch {
        for x in 0..cw {
            let k = at(x, y);
            if !inside(x, y) {
                ensure!(k.symbol == "#" && rgb(k.bg) == Some(PARENT), "{:?} is drawn outside of the box, at column {} of row {}", k.symbol, x as i32 - OFF as i32, y as i32 - OFF as i32);
            }
        }
    }
    Ok((0..h)
        .map(|y| {
            (0..w)
                .map(|x| {
                    let k = at(x + OFF, y + OFF);
                    Px { text: if k.continuation { String::new() } else { k.symbol.clone() }, fg: rgb(k.fg), bg: rgb(k.bg), reverse: k.attrs.reverse }
                })
                .collect()
        })
        .collect())
}

/// One cell of the reference: what it shows and in which colours, before the parent shines through.
#[derive(Clone, Debug)]
struct Ink {
    text: String,
    fg: Option<RgbaColor>,
    bg: Option<RgbaColor>,
    reverse: bool,
    /// Within border and outline.
    inner: bool,
}

#[derive(Clone, Debug)]
struct Spec {
    style: ComputedStyle,
    title: Option<String>,
    subtitle: Option<String>,
    text: String,
}

impl Spec {
    fn new() -> Spec {
        let mut style = ComputedStyle::default();
        style.inherited_background = Some(c(PARENT.0, PARENT.1, PARENT.2));
        style.color = Some(c(200, 210, 220));
        Spec { style, title: Option::None, subtitle: Option::None, text: String::new() }
    }
    fn widget(&self) -> Static<String> {
        let mut s = Static::new(self.text.clone());
        if let Some(t) = &self.title {
            s = s.with_border_title(t.clone());
        }
        if let Some(t) = &self.subtitle {
            s = s.with_border_subtitle(t.clone());
        }
        s.set_style(self.style.clone());
        s
    }
    fn background(&self) -> Option<RgbaColor> {
        let st = &self.style;
        let parent = st.inherited_background.clone();
        match &st.background {
            Some(b) if b.a <= 0.0 => Option::None,
            Option::None => parent,
            Some(b) => {
                let b = match &st.background_tint {
                    Some(t) => b.tint(t),
                    Option::None => b.clone(),
                };
                // Everything a widget draws is faded once for the widget and once for what is on it
                Some(if st.opacity < 1.0 { b.blend_toward(&parent.unwrap(), st.opacity * st.opacity) } else { b })
            }
        }
    }
    fn edge(&self, e: &BorderEdge, faded: bool, row: usize, col: usize, text: char) -> Ink {
        let st = &self.style;
        let parent = st.inherited_background.clone().unwrap();
        let line = e.color.clone().or(st.color.clone()).map(|l| if faded { l.blend_toward(&parent, st.opacity * st.opacity) } else { l });
        let z = zone(e.kind, row, col);
        let bg = match z {
            Zone::Widget | Zone::WidgetReversed => self.background(),
            _ => Some(parent),
        };
        Ink { text: text.to_string(), fg: line, bg, reverse: matches!(z, Zone::ParentReversed | Zone::WidgetReversed), inner: false }
    }
}

fn drawn(e: &BorderEdge, horizontal: bool) -> bool {
    !matches!((e.kind, horizontal), (None | Hidden, _) | (Vkey, true) | (Hkey, false))
}

fn wide(g: &str) -> usize {
    textual::segment::Segment::new(g).cell_length()
}

/// A text cell by cell; the second cell of a wide glyph is "".
fn cells(s: &str) -> Vec<String> {
    let mut v = vec![];
    for g in s.graphemes(true) {
        v.push(g.to_string());
        v.extend((1..wide(g)).map(|_| String::new()));
    }
    v
}

/// The first `n` cells; a halved wide glyph leaves blanks.
fn first(v: &[String], n: usize) -> Vec<String> {
    let mut out: Vec<String> = v.iter().take(n).cloned().collect();
    if v.len() > n && v[n].is_empty() {
        while out.last().is_some_and(|t| t.is_empty()) {
            out.pop();
        }
        out.pop();
        out.resize(n, " ".into());
    }
    out
}

/// What stands in the line of a border: the label's cells and the column where it starts.
/// `spaced`: between corners the label has a blank on either side.
fn label(text: &str, room: usize, align: AlignHorizontal, spaced: bool) -> Option<(usize, Vec<String>)> {
    let mut t = cells(text);
    let extra = if spaced { 2 } else { 0 };
    if t.len() + extra + 2 > room {
        // Cut off, with an ellipsis; without room for that either, left out
        if room < extra + 2 {
            return Option::None;
        }
        t = first(&t, room.saturating_sub(extra + 3));
        t.push("…".into());
    }
    if spaced {
        t.insert(0, " ".into());
        t.push(" ".into());
    }
    let free = room.saturating_sub(t.len());
    let at = match align {
        AlignHorizontal::Left => 1,
        AlignHorizontal::Center => free / 2,
        AlignHorizontal::Right => free.saturating_sub(1),
    };
    Some((at.max(free.min(1)), t))
}

/// Text without its colour tags, and the colour of each cell.
fn plain(markup: &str) -> (String, Vec<Option<RgbaColor>>) {
    let (mut text, mut colors, mut color) = (String::new(), vec![], Option::None);
    for part in markup.split_inclusive(']').flat_map(|p| match p.find('[') {
        Some(i) => vec![&p[..i], &p[i..]],
        Option::None => vec![p],
    }) {
        match part {
            "[/]" => color = Option::None,
            "[#00f000]" => color = Some(c(0, 0xf0, 0)),
            t => {
                assert!(!t.contains('['), "{t}");
                text.push_str(t);
                colors.extend(vec![color.clone(); cells(t).len()]);
            }
        }
    }
    (text, colors)
}

/// The reference: `Ok(None)` for cells about which nothing is said.
fn reference(s: &Spec, w: usize, h: usize) -> Vec<Vec<Option<Ink>>> {
    let st = &s.style;
    let b = &st.border;
    let (t, bo, l, r) = (drawn(&b.top, true), drawn(&b.bottom, true), drawn(&b.left, false), drawn(&b.right, false));
    let bg = s.background();
    let blank = || Ink { text: " ".into(), fg: Option::None, bg: bg.clone(), reverse: false, inner: true };
    let mut g: Vec<Vec<Option<Ink>>> = vec![vec![Some(blank()); w]; h];
    let pad = |v: &Scalar| v.value as usize;
    let p = &st.padding;
    let corners = l && r;
    let put_label = |v: &mut Vec<Option<Ink>>, from: usize, room: usize, e: &BorderEdge, title: &Option<String>, align: AlignHorizontal, bottom: bool, spaced: bool| {
        if let Some(title) = title.as_ref().filter(|t| !t.is_empty()) {
            let (title, own) = plain(title);
            if let Some((at, text)) = label(&title, room, align, spaced) {
                let (color, back) = if bottom { (&st.border_subtitle_color, &st.border_subtitle_background) } else { (&st.border_title_color, &st.border_title_background) };
                let fg = color.clone().or(e.color.clone()).or(st.color.clone()).map(|k| k.blend_toward(&st.inherited_background.clone().unwrap(), st.opacity));
                let back = back.clone().or(st.background.clone());
                let nothing_fits = text.concat().trim() == "…";
                for (i, tx) in text.into_iter().enumerate() {
                    let fg = own.get((i + !spaced as usize).wrapping_sub(1)).cloned().flatten().or(fg.clone());
                    if tx == "…" && (nothing_fits || own.iter().any(|c| c.is_some())) {
                        v[from + at + i] = Option::None;
                    } else if from + at + i < w {
                        v[from + at + i] = Some(Ink { text: tx, fg, bg: back.clone(), reverse: false, inner: false });
                    }
                }
            }
        }
    };
    let line = |e: &BorderEdge, row: usize, title: &Option<String>, align: AlignHorizontal, bottom: bool| -> Vec<Option<Ink>> {
        let gl: Vec<char> = glyphs(e.kind)[row].chars().collect();
        let mut v: Vec<Option<Ink>> = (0..w)
            .map(|x| {
                let col = match corners {
                    true if x == 0 => 0,
                    true if x == w - 1 => 2,
                    _ => 1,
                };
                // With one side only, the end of the line on that side may be a corner or not
                if !corners && ((l && x == 0) || (r && x == w - 1)) {
                    return Option::None;
                }
                Some(s.edge(e, true, row, col, gl[col]))
            })
            .collect();
        let (from, room) = if corners { (1, w.saturating_sub(2)) } else { (0, w) };
        put_label(&mut v, from, room, e, title, align, bottom, corners);
        v
    };
    let named = |t: &Option<String>| t.as_ref().is_some_and(|t| !t.is_empty());
    let any = t || bo || l || r;
    let reserve_top = (any && !t && named(&s.title)) as usize;
    let reserve_bottom = (any && !bo && named(&s.subtitle)) as usize;
    for y in 0..h {
        if y == 0 && t {
            g[y] = line(&b.top, 0, &s.title, st.border_title_align, false);
            continue;
        }
        if y == h - 1 && bo {
            g[y] = line(&b.bottom, 2, &s.subtitle, st.border_subtitle_align, true);
            continue;
        }
        // A side that has no room beside the other one or the padding may give way to it
        let tight = w < l as usize + r as usize + pad(&p.left) + pad(&p.right);
        if l {
            g[y][0] = Some(s.edge(&b.left, true, 1, 0, glyphs(b.left.kind)[1].chars().next().unwrap()));
        }
        if r && !tight {
            g[y][w - 1] = Some(s.edge(&b.right, true, 1, 2, glyphs(b.right.kind)[1].chars().nth(2).unwrap()));
        }
        // Without a line for it, the title takes the first row between the sides
        let title = reserve_top == 1 && y == 0;
        if (l || r) && (title || (reserve_bottom == 1 && y == h - 1)) {
            let room = w.saturating_sub(l as usize + r as usize);
            if title {
                put_label(&mut g[y], l as usize, room, &b.top, &s.title, st.border_title_align, false, true);
            } else {
                put_label(&mut g[y], l as usize, room, &b.bottom, &s.subtitle, st.border_subtitle_align, true, true);
            }
        } else if tight {
            g[y].iter_mut().skip(l as usize).for_each(|k| *k = Option::None);
        }
    }
    // The content
    let (x0, y0) = (l as usize + pad(&p.left), t as usize + pad(&p.top) + reserve_top);
    let iw = w.saturating_sub(x0 + r as usize + pad(&p.right));
    let ih = h.saturating_sub(y0 + bo as usize + pad(&p.bottom) + reserve_bottom);
    if iw > 0 && ih > 0 && !s.text.is_empty() {
        let lp = st.line_pad as usize;
        let lines: Vec<Vec<String>> = s.text.split('\n').map(|l| [vec![" ".to_string(); lp], cells(l), vec![" ".to_string(); lp]].concat()).collect();
        let widest = lines.iter().map(|l| l.len()).max().unwrap();
        assert!(widest <= iw, "the reference does not wrap");
        let dy = match st.content_align_vertical {
            AlignVertical::Top => 0,
            AlignVertical::Middle => ih.saturating_sub(lines.len()) / 2,
            AlignVertical::Bottom => ih.saturating_sub(lines.len()),
        };
        let dx = match st.content_align_horizontal {
            AlignHorizontal::Left => 0,
            AlignHorizontal::Center => (iw - widest) / 2,
            AlignHorizontal::Right => iw - widest,
        };
        let full = st.content_align_horizontal == AlignHorizontal::Left && st.content_align_vertical == AlignVertical::Top;
        let lw = if full { iw } else { widest };
        let parent = st.inherited_background.clone().unwrap();
        let mut fg = if st.auto_color {
            bg.as_ref().map(|b| b.get_contrasting_color(st.color.as_ref().map_or(1.0, |c| c.a)).blend_toward(&parent, st.opacity))
        } else {
            st.color.clone().map(|k| k.blend_toward(&parent, st.opacity))
        };
        if st.text_opacity < 1.0 {
            fg = fg.map(|f| f.blend_toward(bg.as_ref().unwrap_or(&parent), st.text_opacity));
        }
        for (i, line) in lines.iter().enumerate().take(ih - dy) {
            let free = lw - line.len();
            let at = match st.text_align {
                TextAlign::Start | TextAlign::Left | TextAlign::Justify => 0,
                TextAlign::Center => free / 2,
                TextAlign::Right | TextAlign::End => free,
            };
            for (j, tx) in line.iter().enumerate() {
                g[y0 + dy + i][x0 + dx + at + j] = Some(Ink { text: tx.clone(), fg: fg.clone(), bg: bg.clone(), reverse: false, inner: true });
            }
        }
    }
    // The outline lies over all of that
    let o = &st.outline;
    let (t, bo, l, r) = (drawn(&o.top, true), drawn(&o.bottom, true), drawn(&o.left, false), drawn(&o.right, false));
    for y in 0..h {
        let row = if y == 0 && t {
            Some((&o.top, 0))
        } else if y == h - 1 && bo {
            Some((&o.bottom, 2))
        } else {
            Option::None
        };
        for x in 0..w {
            let (left, right) = (l && x == 0, r && x == w - 1);
            if let Some((e, i)) = row {
                let col = if left { 0 } else if right { 2 } else { 1 };
                g[y][x] = Some(s.edge(e, false, i, col, glyphs(e.kind)[i].chars().nth(col).unwrap()));
            } else if left {
                g[y][x] = Some(s.edge(&o.left, false, 1, 0, glyphs(o.left.kind)[1].chars().next().unwrap()));
            } else if right {
                g[y][x] = Some(s.edge(&o.right, false, 1, 2, glyphs(o.right.kind)[1].chars().nth(2).unwrap()));
            }
        }
        // A wide glyph cut by the outline leaves a blank
        for x in 0..w {
            let text = |k: &Option<Ink>| k.as_ref().map(|k| k.text.clone());
            let half = match text(&g[y][x]) {
                Some(tx) if wide(&tx) == 2 => x + 1 >= w || text(&g[y][x + 1]).is_some_and(|n| !n.is_empty()),
                Some(tx) if tx.is_empty() => x == 0 || text(&g[y][x - 1]).is_some_and(|n| wide(&n) != 2),
                _ => false,
            };
            if half {
                g[y][x].as_mut().unwrap().text = " ".into();
            }
        }
    }
    if let Some(hatch) = &st.hatch {
        for k in g.iter_mut().flatten().flatten() {
            if k.inner && k.text == " " {
                k.text = hatch.pattern.char().to_string();
                let mut color = hatch.color.clone();
                color.a *= hatch.opacity;
                k.fg = Some(color);
            }
        }
    }
    if let Some(tint) = &st.tint {
        for k in g.iter_mut().flatten().flatten() {
            k.fg = k.fg.as_ref().map(|c| c.tint(tint));
            k.bg = k.bg.as_ref().map(|c| c.tint(tint));
        }
    }
    g
}

/// The colour on screen: backgrounds let the parent's through, text fades to black.
fn over_parent(bg: &Option<RgbaColor>) -> Rgb {
    match bg {
        Some(b) if b.a > 0.0 => {
            let m = b.blend_over(&c(PARENT.0, PARENT.1, PARENT.2));
            (m.r, m.g, m.b)
        }
        _ => PARENT,
    }
}
fn over_black(fg: &RgbaColor) -> Rgb {
    let f = |v: u8| if fg.a >= 1.0 { v } else { (v as f32 * fg.a).round() as u8 };
    (f(fg.r), f(fg.g), f(fg.b))
}

const HOLDERS: &[&str] = &["Container", "Vertical", "Horizontal", "Grid", "ItemGrid", "ScrollableContainer", "VerticalScroll", "HorizontalScroll", "Label", "Button", "Input", "OptionList", "Screen"];
/// Kinds that have titles.
const TITLED: &[&str] = &["Container", "Vertical", "Horizontal", "Label"];

fn holder(kind: &str, s: &Spec) -> Box<dyn Widget<String>> {
    let mut b: Box<dyn Widget<String>> = match kind {
        "Label" => Box::new(textual::Label::new("")),
        "Button" => Box::new(textual::widget::button::Button::new("")),
        "Input" => Box::new(textual::Input::new()),
        "OptionList" => Box::new(textual::OptionList::new(vec![])),
        "Screen" => Box::new(textual::widget::screen::Screen::new(vec![])),
        _ => mc::probe::container(kind, "c", vec![]),
    };
    if let Some(t) = &s.title {
        b.set_border_title(t);
    }
    if let Some(t) = &s.subtitle {
        b.set_border_subtitle(t);
    }
    b.set_style(s.style.clone());
    b
}

fn compare(s: &Spec, w: usize, h: usize) -> Res {
    compare_to(s, &s.widget(), w, h)
}

fn compare_to(s: &Spec, widget: &dyn Widget<String>, w: usize, h: usize) -> Res {
    let have = draw(widget, w, h)?;
    let want = reference(s, w, h);
    let show = |v: Vec<String>| v.concat();
    for y in 0..h {
        for x in 0..w {
            let Some(k) = &want[y][x] else { continue };
            let p = &have[y][x];
            let rows = || format!("row {y} is {:?}, not {:?}", show(have[y].iter().map(|p| p.text.clone()).collect()), show(want[y].iter().map(|k| k.as_ref().map_or("?".into(), |k| k.text.clone())).collect()));
            ensure!(p.text == k.text, "column {x}: {}", rows());
            ensure!(p.reverse == k.reverse, "column {x} of row {y} {:?} reversed: {}; {}", p.text, p.reverse, rows());
            ensure!(p.bg == Some(over_parent(&k.bg)), "column {x} of row {y} {:?} has the background {:?}, not {:?}", p.text, p.bg, over_parent(&k.bg));
            // The colour of the ink matters where there is ink
            if !p.text.trim().is_empty() || p.reverse {
                let fg = k.fg.as_ref().map(over_black);
                ensure!(p.fg == fg, "column {x} of row {y} {:?} has the colour {:?}, not {:?}", p.text, p.fg, fg);
            }
        }
    }
    Ok(())
}
type Res = Result<(), String>;

fn edge(kind: BorderKind, color: Option<RgbaColor>) -> BorderEdge {
    BorderEdge { kind, color }
}

fn spacing(t: usize, r: usize, b: usize, l: usize) -> Spacing {
    let s = |v: usize| Scalar::cells(v as f64);
    Spacing { top: s(t), right: s(r), bottom: s(b), left: s(l) }
}

const KINDS: [BorderKind; 18] = [None, Ascii, Blank, BorderKind::Block, Double, Dashed, Heavy, Hidden, Hkey, Outer, Inner, Panel, Solid, Round, Tall, Thick, Vkey, Wide];

fn four(colors: bool) -> [Option<RgbaColor>; 4] {
    if colors {
        [Some(c(255, 0, 0)), Some(c(0, 255, 0)), Some(c(0, 0, 255)), Some(c(255, 255, 0))]
    } else {
        [Some(c(250, 100, 50)), Some(c(250, 100, 50)), Some(c(250, 100, 50)), Some(c(250, 100, 50))]
    }
}

fn border(k: [BorderKind; 4], cl: [Option<RgbaColor>; 4]) -> Border {
    let [a, b, d, e] = cl;
    Border { top: edge(k[0], a), right: edge(k[1], b), bottom: edge(k[2], d), left: edge(k[3], e) }
}

fn c32(ctx: &Ctx) {
    ctx.assume("outlines, hatching and tint of containers are not claimed: only widgets with content draw them; titles where a kind of widget has them");
    ctx.assume("wrapping of the content is C04's; here each line fits");
    ctx.assume("nothing is said about a right side or padding for which the box is too narrow, nor about the end of a top or bottom line on a side that alone has a border");
    let pads = [(0, 0, 0, 0), (1, 2, 0, 1), (0, 1, 2, 0)];
    // Every edge of its own kind
    let kinds: &'static [BorderKind] = ctx.pick(vec![None, Solid, Hkey, Vkey, Tall, Double], vec![None, Solid, Hkey, Vkey, Tall, Double, Hidden, Wide, Blank]).leak();
    let n = kinds.len() as u64;
    let total = n.pow(4) * 2 * 3 * 7 * 5;
    let mk = move |i: u64| {
        let mut m = Mix(i);
        let k = [*m.of(kinds), *m.of(kinds), *m.of(kinds), *m.of(kinds)];
        let mut s = Spec::new();
        let cl = four(m.pick(2) == 1);
        s.style.border = border(k, cl);
        let p = *m.of(&pads);
        s.style.padding = spacing(p.0, p.1, p.2, p.3);
        s.style.background = Some(c(60, 60, 90));
        (s, m.pick(7) + 1, m.pick(5) + 1)
    };
    let name = |s: &Spec, w: usize, h: usize| format!("{w}x{h} {:?} border {:?} outline {:?} padding {:?} title {:?}", s.text, kinds_of(&s.style.border), kinds_of(&s.style.outline), [s.style.padding.top.value, s.style.padding.right.value, s.style.padding.bottom.value, s.style.padding.left.value], (&s.title, &s.subtitle));
    let go = |(s, w, h): (Spec, usize, usize), k: &mut mc::W| {
        k.steps((w * h) as u64);
        let out = compare(&s, w, h);
        k.state(&(format!("{:?}{:?}", s.style.border, s.style.outline), w, h));
        out
    };
    ctx.explore("borders with each edge of its own kind", total, move |i| { let (s, w, h) = mk(i); name(&s, w, h) }, move |i, k| go(mk(i), k));
    // Outlines over borders
    let ok: &'static [BorderKind] = &[None, Solid, Hkey, Vkey, Wide];
    let n = ok.len() as u64;
    let mk = move |i: u64| {
        let mut m = Mix(i);
        let k = [*m.of(ok), *m.of(ok), *m.of(ok), *m.of(ok)];
        let mut s = Spec::new();
        let cl = four(m.pick(2) == 1);
        s.style.outline = border(k, cl);
        match m.pick(3) {
            0 => (),
            1 => s.style.border = border([Double; 4], four(false)),
            _ => s.style.padding = spacing(1, 1, 0, 0),
        }
        let (w, h) = (m.pick(6) + 1, m.pick(4) + 1);
        if m.pick(2) == 1 && w >= 4 && s.style.padding.top.value == 0.0 {
            s.text = "字x".into();
            if s.style.border.top.kind == Double && w < 5 {
                s.text = "y".into();
            }
        }
        s.style.background = Some(c(60, 60, 90));
        (s, w, h)
    };
    ctx.explore("outlines with each edge of its own kind", n.pow(4) * 2 * 3 * 6 * 4 * 2, move |i| { let (s, w, h) = mk(i); name(&s, w, h) }, move |i, k| go(mk(i), k));
    // Every kind with its colours
    let backs: &'static [Option<RgbaColor>] = vec![Option::None, Some(c(60, 60, 90)), Some(RgbaColor::rgba(60, 60, 90, 0.5)), Some(RgbaColor::rgba(1, 2, 3, 0.0))].leak();
    let mk = move |i: u64| {
        let mut m = Mix(i);
        let kind = *m.of(&KINDS);
        let mut s = Spec::new();
        let cl = match m.pick(4) {
            0 => four(false),
            1 => four(true),
            2 => [const { Option::None }; 4],
            _ => std::array::from_fn(|_| Some(RgbaColor::rgba(250, 100, 50, 0.4))),
        };
        if m.pick(2) == 0 {
            s.style.border = border([kind; 4], cl);
        } else {
            s.style.outline = border([kind; 4], cl);
        }
        s.style.background = m.of(backs).clone();
        match m.pick(4) {
            0 => (),
            1 if s.style.outline == Border::default() => s.style.opacity = 0.5,
            2 => s.style.tint = Some(RgbaColor::rgba(0, 200, 0, 0.25)),
            _ => s.style.background_tint = Some(RgbaColor::rgba(0, 0, 200, 0.5)),
        }
        let (w, h) = (m.pick(5) + 1, m.pick(4) + 1);
        if m.pick(2) == 1 && w >= 3 {
            s.text = "z".into();
        }
        (s, w, h)
    };
    let total = 18 * 4 * 2 * 4 * 4 * 5 * 4 * 2;
    ctx.explore("every kind of border and outline, with its colours", total, move |i| { let (s, w, h) = mk(i); format!("{} colours {:?} background {:?} opacity {} tint {:?}", name(&s, w, h), s.style.border.top.color, s.style.background, s.style.opacity, (&s.style.tint, &s.style.background_tint)) }, move |i, k| go(mk(i), k));
    // One after the other: what was drawn before does not matter
    let colors: &'static [Option<RgbaColor>] = vec![Option::None, Some(c(250, 100, 50)), Some(RgbaColor::rgba(250, 100, 50, 0.5)), Some(c(60, 60, 90))].leak();
    let mk = move |i: u64| {
        let mut m = Mix(i);
        let kinds = [Solid, Tall, Inner];
        let mut one = || {
            let mut s = Spec::new();
            let k = *m.of(&kinds);
            let cl = m.of(colors).clone();
            s.style.border = border([k; 4], [cl.clone(), cl.clone(), cl.clone(), cl]);
            s.style.background = m.of(backs).clone();
            s.text = "z".into();
            s
        };
        (one(), one())
    };
    let total = (3 * 4 * 4u64).pow(2);
    ctx.explore("one widget after another", total, move |i| { let (a, b) = mk(i); format!("{} {:?} {:?} then {} {:?} {:?}", name(&a, 5, 3), a.style.border.top.color, a.style.background, name(&b, 5, 3), b.style.border.top.color, b.style.background) }, move |i, k| {
        let (a, b) = mk(i);
        textual::border_box::clear_cache();
        go((a, 5, 3), k)?;
        go((b, 5, 3), k)
    });
    // Containers and widgets with nothing in them are boxes too
    let mk = move |i: u64| {
        let mut m = Mix(i);
        let holder = *m.of(HOLDERS);
        let kind = *m.of(&KINDS);
        let mut s = Spec::new();
        let cl = match m.pick(3) {
            0 => four(true),
            1 => [const { Option::None }; 4],
            _ => std::array::from_fn(|_| Some(RgbaColor::rgba(250, 100, 50, 0.4))),
        };
        s.style.border = if m.pick(2) == 0 { border([kind; 4], cl) } else { border([kind, None, Solid, Heavy], cl) };
        s.style.background = m.of(backs).clone();
        match m.pick(3) {
            1 => s.style.opacity = 0.5,
            2 => {
                s.style.background_tint = Some(RgbaColor::rgba(0, 0, 200, 0.5));
                if ["Label", "Button", "Input"].contains(&holder) {
                    s.style.tint = Some(RgbaColor::rgba(0, 200, 0, 0.25));
                    s.style.outline = border([None, Solid, Double, Heavy], four(true));
                }
            }
            _ => (),
        }
        if m.pick(2) == 1 && TITLED.contains(&holder) {
            s.title = Some("T".into());
            s.subtitle = Some("sub".into());
        }
        (holder, s, m.pick(7) + 1, m.pick(4) + 1)
    };
    let total = HOLDERS.len() as u64 * 18 * 3 * 2 * 4 * 3 * 2 * 7 * 4;
    ctx.explore("containers and other widgets", total, move |i| { let (o, s, w, h) = mk(i); format!("{o} {} background {:?} opacity {} tint {:?} {:?} hatch {}", name(&s, w, h), s.style.background, s.style.opacity, s.style.tint, s.style.background_tint, s.style.hatch.is_some()) }, move |i, k| {
        let (o, s, w, h) = mk(i);
        k.steps((w * h) as u64);
        compare_to(&s, holder(o, &s).as_ref(), w, h)
    });
    // Titles
    let titles: &'static [Option<&str>] = &[Option::None, Some("T"), Some("T[#00f000]it l[/]e"), Some("字字字"), Some("[#00f000]x字[/]y")];
    let aligns = [AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right];
    let mk = move |i: u64| {
        let mut m = Mix(i);
        let mut s = Spec::new();
        s.title = m.of(titles).map(String::from);
        s.subtitle = m.of(titles).map(String::from);
        s.style.border_title_align = *m.of(&aligns);
        s.style.border_subtitle_align = *m.of(&aligns);
        s.style.border = border([[Solid; 4], [Hkey; 4], [Heavy, None, Round, None], [Panel; 4], [Thick, None, None, None], [Vkey; 4], [None, None, Solid, Heavy], [None, Solid, None, Double]][m.pick(8)], four(true));
        match m.pick(4) {
            0 => (),
            1 => s.style.padding = spacing(1, 0, 0, 0),
            2 => s.style.outline = border([None, Solid, Heavy, Double], four(true)),
            _ => s.text = "z".into(),
        }
        match m.pick(4) {
            0 => s.style.background = Some(c(60, 60, 90)),
            1 => s.style.border_title_background = Some(c(1, 1, 1)),
            2 => {
                s.style.border_title_color = Some(c(2, 2, 2));
                s.style.border_subtitle_background = Some(c(3, 3, 3));
            }
            _ => {
                s.style.border_subtitle_color = Some(c(4, 4, 4));
                s.style.opacity = 0.5;
            }
        }
        let (w, h) = (m.pick(16) + 1, m.pick(4) + 1);
        if w < 3 {
            s.text.clear();
        }
        (s, w, h)
    };
    ctx.explore("titles and subtitles", 25 * 9 * 8 * 4 * 4 * 16 * 4, move |i| { let (s, w, h) = mk(i); format!("{} {:?}", name(&s, w, h), (s.style.border_title_align, s.style.border_subtitle_align)) }, move |i, k| {
        let (s, w, h) = mk(i);
        if s.text.is_empty() {
            let kinds: &[&str] = if s.style.outline == Border::default() { &["Label", "Container", "Vertical"] } else { &["Label"] };
            for kind in kinds {
                k.steps((w * h) as u64);
                compare_to(&s, holder(kind, &s).as_ref(), w, h).map_err(|e| format!("of a {kind}: {e}"))?;
            }
        }
        go((s, w, h), k)
    });
    // Content
    let texts: &'static [&str] = &["", "a", "ab\nc", "字\nabc\n", "a\n\nbcd", "a b\nc"];
    let ta = [TextAlign::Left, TextAlign::Center, TextAlign::Right, TextAlign::Start, TextAlign::End];
    let vs = [AlignVertical::Top, AlignVertical::Middle, AlignVertical::Bottom];
    let mk = move |i: u64| {
        let mut m = Mix(i);
        let mut s = Spec::new();
        s.text = m.of(texts).to_string();
        s.style.content_align_horizontal = *m.of(&aligns);
        s.style.content_align_vertical = *m.of(&vs);
        s.style.text_align = *m.of(&ta);
        s.style.line_pad = m.pick(2) as u16;
        let p = *m.of(&pads);
        s.style.padding = spacing(p.0, p.1, p.2, p.3);
        let chrome = match m.pick(4) {
            0 => 0,
            1 => {
                s.style.border = border([Solid; 4], four(false));
                2
            }
            2 => {
                s.style.border = border([Hkey; 4], four(false));
                0
            }
            _ => {
                s.style.border = border([Blank; 4], four(false));
                2
            }
        };
        match m.pick(5) {
            0 => s.style.background = Some(c(60, 60, 90)),
            1 => s.style.hatch = Some(Hatch { pattern: HatchPattern::Cross, color: c(9, 9, 9), opacity: 1.0 }),
            2 => s.style.text_opacity = 0.5,
            3 => s.style.opacity = 0.25,
            _ => {
                s.style.background = Some(c(200, 200, 200));
                s.style.auto_color = true;
            }
        }
        let widest = s.text.split('\n').map(|l| cells(l).len()).max().unwrap() + 2 * s.style.line_pad as usize;
        let least = (widest + chrome + p.1 + p.3).max(1);
        (s, least + m.pick(4), m.pick(7) + 1)
    };
    ctx.explore("content", 6 * 9 * 5 * 2 * 3 * 4 * 5 * 4 * 7, move |i| { let (s, w, h) = mk(i); format!("{} align {:?} text {:?} line-pad {} hatch {:?}", name(&s, w, h), (s.style.content_align_horizontal, s.style.content_align_vertical), s.style.text_align, s.style.line_pad, s.style.hatch.is_some()) }, move |i, k| {
        let (s, w, h) = mk(i);
        if s.style.content_align_horizontal == AlignHorizontal::Left && s.style.content_align_vertical != AlignVertical::Top && s.style.text_align != TextAlign::Left && s.style.text_align != TextAlign::Start {
            return Ok(());
        }
        go((s, w, h), k)
    });
}

fn kinds_of(b: &Border) -> [BorderKind; 4] {
    [b.top.kind, b.right.kind, b.bottom.kind, b.left.kind]
}

/// The action of the link whose letter a cell shows, by the letters used in `LINKS`:
/// `Some(None)` for a cell that is certainly no link, `None` for one that may be.
fn action_at(row: &[Px], x: usize) -> Option<Option<&'static str>> {
    let mut x = x;
    while row[x].text.is_empty() && x > 0 {
        x -= 1;
    }
    Some(match row[x].text.as_str() {
        "A" | "C" | "字" => Some("app.one('x')"),
        "B" | "語" => Some("app.two"),
        " " | "…" | "╳" => return Option::None,
        _ => Option::None,
    })
}

const LINKS: &[&str] = &[
    "[@click=app.one('x')]AAA[/]",
    "x[@click=app.one('x')]AA[/]y[@click=app.two]BB[/]z",
    "[@click=app.one('x')]AA AC[/] yy [@click=app.two]B[/]",
    "x\n[@click=app.one('x')]A\nC[/]y\n\n[@click=app.two]BB[/]",
    "x[@click=app.one('x')]字A[/]中[@click=app.two]B語[/]",
    "[@click=app.one('x')]A[@click=app.two]B[/]C[/]x",
    "[@click=app.one('x')]A[b]AC[/b]C[/]x[b]y[@click=app.two]B[/][/b]",
    "[@click=app.one('x')]A[/][@click=app.two]B[/][@click=app.one('x')]C[/]",
    "plain x\n[b]y[/b]",
];

fn mouse(kind: MouseEventKind, x: i32, y: i32) -> MouseEvent {
    MouseEvent { kind, column: x as u16, row: y as u16, modifiers: KeyModifiers::NONE }
}

const LINK: Rgb = (1, 200, 1);
const LINK_BACK: Rgb = (40, 2, 2);
const HOVER: Rgb = (250, 250, 3);
const HOVER_BACK: Rgb = (4, 4, 140);

/// Draws the widget and checks every cell in and around it: what a click on it does, and what is
/// highlighted while the mouse is over it.
fn links(widget: &mut Static<String>, plain_colors: bool, w: usize, h: usize, k: &mut mc::W) -> Res {
    let hidden = <Static<String> as Widget<String>>::get_style(widget).visibility == Visibility::Hidden;
    let mut seen = vec![];
    let shown = draw(widget, w, h)?;
    let text = || shown.iter().map(|r| r.iter().map(|p| p.text.clone()).collect::<String>()).collect::<Vec<_>>();
    let region = Region::new(OFF as i32, OFF as i32, w as i32, h as i32);
    let colored = |rows: &Vec<Vec<Px>>, over: Option<&str>| -> Res {
        for (y, row) in rows.iter().enumerate() {
            for x in 0..w {
                ensure!(row[x].text == shown[y][x].text, "with the mouse over {over:?} column {x} of row {y} shows {:?}, before {:?}", row[x].text, shown[y][x].text);
                if row[x].text.is_empty() {
                    continue;
                }
                let have = (row[x].fg, row[x].bg);
                match action_at(row, x) {
                    Some(Some(a)) if Some(a) == over => ensure!(have == (Some(HOVER), Some(HOVER_BACK)), "{:?} of the link under the mouse has the colours {have:?}: {:?}", row[x].text, text()),
                    Some(Some(_)) => ensure!(have == (Some(LINK), Some(LINK_BACK)), "{:?} of a link that is not under the mouse ({over:?}) has the colours {have:?}: {:?}", row[x].text, text()),
                    Some(Option::None) => ensure!(![Some(LINK), Some(HOVER)].contains(&have.0) && ![Some(LINK_BACK), Some(HOVER_BACK)].contains(&have.1), "{:?}, no link, has the colours {have:?}: {:?}", row[x].text, text()),
                    Option::None => (),
                }
            }
        }
        Ok(())
    };
    if plain_colors {
        colored(&shown, Option::None)?;
    }
    for y in -1..=h as i32 {
        for x in -1..=w as i32 {
            k.step();
            let inside = x >= 0 && y >= 0 && (x as usize) < w && (y as usize) < h;
            let want = if inside && !hidden { action_at(&shown[y as usize], x as usize) } else { Some(Option::None) };
            let (px, py) = (x + OFF as i32, y + OFF as i32);
            for kind in [MouseEventKind::Up(MouseButton::Left), MouseEventKind::Down(MouseButton::Right), MouseEventKind::Drag(MouseButton::Left), MouseEventKind::ScrollDown] {
                widget.on_mouse(mouse(kind, px, py), region);
                let a = <Static<String> as Widget<String>>::take_pending_action(widget);
                ensure!(a.is_none(), "{kind:?} at column {x} of row {y} ran {a:?}: {:?}", text());
            }
            widget.mark_clean();
            widget.on_mouse(mouse(MouseEventKind::Down(MouseButton::Left), px, py), region);
            let a = <Static<String> as Widget<String>>::take_pending_action(widget);
            ensure!(<Static<String> as Widget<String>>::take_pending_action(widget).is_none(), "an action ran twice");
            if let Some(want) = want {
                ensure!(a.as_deref() == want, "a click at column {x} of row {y} ran {a:?} instead of {want:?}: {:?}", text());
            }
            // The mouse rests there
            <Static<String> as Widget<String>>::clear_hover(widget);
            widget.mark_clean();
            widget.on_mouse(mouse(MouseEventKind::Moved, px, py), region);
            let hover = <Static<String> as Widget<String>>::get_state(widget).contains(tcss::parser::cascade::WidgetStates::HOVER);
            ensure!(hover == inside, "at column {x} of row {y} the mouse is over the widget: {hover}");
            let over = widget.hovered_link();
            ensure!(<Static<String> as Widget<String>>::take_pending_action(widget).is_none(), "moving the mouse ran an action");
            ensure!(over == a, "at column {x} of row {y} a click runs {a:?}, but the mouse is over {over:?}: {:?}", text());
            ensure!(over.is_none() || widget.is_dirty(), "the mouse came over a link, but nothing is drawn anew");
            if over.is_some() && plain_colors && !seen.contains(&over) {
                seen.push(over.clone());
                colored(&draw(widget, w, h)?, over.as_deref())?;
            }
            widget.mark_clean();
            <Static<String> as Widget<String>>::clear_hover(widget);
            ensure!(widget.hovered_link().is_none(), "the mouse left, but is still over {:?}", widget.hovered_link());
            ensure!(over.is_none() || widget.is_dirty(), "the mouse left a link, but nothing is drawn anew");
        }
    }
    if plain_colors {
        colored(&draw(widget, w, h)?, Option::None)?;
    }
    k.state(&text());
    Ok(())
}

fn c36(ctx: &Ctx) {
    ctx.assume("nothing is said about clicks on blanks, ellipses and hatching within or next to a link, nor about cells an outline covers");
    let pads: &'static [(usize, usize, usize, usize)] = &[(0, 0, 0, 0), (1, 0, 0, 2), (0, 3, 1, 1)];
    let aligns = [AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right];
    let vs = [AlignVertical::Top, AlignVertical::Middle, AlignVertical::Bottom];
    let ta = [TextAlign::Left, TextAlign::Center, TextAlign::Right, TextAlign::Justify];
    let borders: &'static [[BorderKind; 4]] = &[[None; 4], [Solid; 4], [Hkey; 4], [Vkey; 4], [None, None, None, Heavy], [Tall, None, None, None], [Blank, Hidden, Wide, Inner]];
    let base = |text: &str| {
        let mut s = Spec::new();
        s.text = text.to_string();
        s.style.background = Some(c(60, 60, 90));
        s.style.link = LinkStyle {
            color: Some(c(LINK.0, LINK.1, LINK.2)),
            background: Some(c(LINK_BACK.0, LINK_BACK.1, LINK_BACK.2)),
            color_hover: Some(c(HOVER.0, HOVER.1, HOVER.2)),
            background_hover: Some(c(HOVER_BACK.0, HOVER_BACK.1, HOVER_BACK.2)),
            ..Default::default()
        };
        s
    };
    let (mw, mh) = (ctx.pick(9, 14), ctx.pick(5, 6));
    let mk = move |i: u64| {
        let mut m = Mix(i);
        let mut s = base(m.of(LINKS));
        s.style.border = border(*m.of(borders), four(false));
        let p = *m.of(pads);
        s.style.padding = spacing(p.0, p.1, p.2, p.3);
        match m.pick(4) {
            0 => (),
            1 => s.title = Some("tt".into()),
            2 => s.subtitle = Some("tt".into()),
            _ => {
                s.title = Some("t".into());
                s.subtitle = Some("u".into());
            }
        }
        (s.style.content_align_horizontal, s.style.content_align_vertical) = [(aligns[0], vs[0]), (aligns[1], vs[1]), (aligns[2], vs[2])][m.pick(3)];
        s.style.line_pad = m.pick(2) as u16;
        (s, m.pick(mw) + 1, m.pick(mh) + 1)
    };
    let describe = |s: &Spec, w: usize, h: usize| {
        let p = &s.style.padding;
        format!(
            "{:?} in {w}x{h} border {:?} padding {:?} titles {:?} align {:?} text {:?} wrap {:?} overflow {:?} line-pad {}",
            s.text,
            kinds_of(&s.style.border),
            [p.top.value, p.right.value, p.bottom.value, p.left.value],
            (&s.title, &s.subtitle),
            (s.style.content_align_horizontal, s.style.content_align_vertical),
            s.style.text_align,
            s.style.text_wrap,
            s.style.text_overflow,
            s.style.line_pad
        )
    };
    let total = LINKS.len() as u64 * 7 * 3 * 4 * 3 * 2 * (mw * mh) as u64;
    ctx.explore("links in boxes with border, padding and titles", total, move |i| { let (s, w, h) = mk(i); describe(&s, w, h) }, move |i, k| {
        let (s, w, h) = mk(i);
        links(&mut s.widget(), true, w, h, k)
    });
    // Wrapping and alignment
    let mk = move |i: u64| {
        let mut m = Mix(i);
        let mut s = base(m.of(LINKS));
        s.style.text_align = *m.of(&ta);
        s.style.content_align_horizontal = *m.of(&aligns);
        s.style.content_align_vertical = *m.of(&vs);
        s.style.text_wrap = *m.of(&[TextWrap::Wrap, TextWrap::NoWrap]);
        s.style.text_overflow = *m.of(&[TextOverflow::Fold, TextOverflow::Clip, TextOverflow::Ellipsis]);
        let effect = m.pick(4);
        match effect {
            0 => (),
            1 => s.style.hatch = Some(Hatch { pattern: HatchPattern::Cross, color: c(9, 9, 9), opacity: 1.0 }),
            2 => s.style.text_opacity = 0.5,
            _ => s.style.tint = Some(RgbaColor::rgba(0, 200, 0, 0.25)),
        }
        (s, effect < 2, m.pick(mw) + 1, m.pick(mh) + 1)
    };
    let total = LINKS.len() as u64 * 4 * 9 * 2 * 3 * 4 * (mw * mh) as u64;
    ctx.explore("links in wrapped and aligned text", total, move |i| { let (s, plain, w, h) = mk(i); format!("{} opacity, tint or hatch: {}", describe(&s, w, h), !plain) }, move |i, k| {
        let (s, plain, w, h) = mk(i);
        links(&mut s.widget(), plain, w, h, k)
    });
    // What was there before leaves no links
    let mk = move |i: u64| {
        let mut m = Mix(i);
        let mut one = || (m.pick(LINKS.len() as u64 + 1), *m.of(&[[None; 4], [Solid; 4]]), *m.of(&[(6usize, 3usize), (3, 4), (9, 1)]));
        (one(), one(), one())
    };
    let total = ((LINKS.len() as u64 + 1) * 2 * 3).pow(3);
    ctx.explore("one content after another, and none", total, move |i| format!("{:?}", mk(i)), move |i, k| {
        let (a, b, d) = mk(i);
        let mut widget = base("").widget();
        for (n, kinds, (w, h)) in [a, b, d] {
            let mut style = base("").style;
            style.border = border(kinds, four(false));
            match LINKS.get(n) {
                Some(t) => {
                    widget.update(t.to_string());
                    widget.set_style(style);
                }
                // Not shown at all
                Option::None => {
                    style.visibility = Visibility::Hidden;
                    widget.set_style(style);
                }
            }
            links(&mut widget, true, w, h, k)?;
        }
        Ok(())
    });
}

fn main() {
    main_with(&[("C32", c32), ("C36", c36)])
}
