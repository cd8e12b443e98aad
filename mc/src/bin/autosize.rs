//! C37 auto sizes: a widget sized `auto` is exactly as large as what it holds.
use crossterm::style::Color;
use mc::*;
use tcss::types::border::{Border, BorderEdge, BorderKind};
use tcss::types::geometry::{Scalar, Spacing, Unit};
use tcss::types::{BoxSizing, ComputedStyle, Display, Layout, RgbaColor};
use textual::widget::label::Label;
use textual::widget::static_widget::Static;
use textual::widget::Widget;
use textual::{Canvas, Container, Region, ScrollableContainer};

type Wd = Box<dyn Widget<String>>;

fn spacing(m: [i32; 4]) -> Spacing {
    let s = |v: i32| Scalar::cells(v as f64);
    Spacing { top: s(m[0]), right: s(m[1]), bottom: s(m[2]), left: s(m[3]) }
}
fn auto() -> Option<Scalar> {
    Some(Scalar { value: 0.0, unit: Unit::Auto })
}
fn edge(kind: BorderKind) -> BorderEdge {
    BorderEdge { kind, color: Some(RgbaColor::rgb(200, 200, 0)) }
}
fn border(k: [BorderKind; 4]) -> Border {
    Border { top: edge(k[0]), right: edge(k[1]), bottom: edge(k[2]), left: edge(k[3]) }
}
/// Columns and rows that the border takes.
fn border_size(k: [BorderKind; 4]) -> (usize, usize) {
    let line = |k: BorderKind| (k != BorderKind::None && k != BorderKind::Hidden) as usize;
    (line(k[1]) + line(k[3]), line(k[0]) + line(k[2]))
}
const NONE: [BorderKind; 4] = [BorderKind::None; 4];
const SOLID: [BorderKind; 4] = [BorderKind::Solid; 4];

/// The cells that show something, row by row; blanks at the end left out.
fn shown(canvas: &Canvas, w: usize, h: usize) -> Vec<String> {
    (0..h)
        .map(|y| {
            let mut s = String::new();
            for x in 0..w {
                let c = canvas.cell_at(y * w + x);
                if !c.continuation {
                    s.push_str(if c.symbol.is_empty() { " " } else { &c.symbol });
                }
            }
            s.trim_end().to_string()
        })
        .collect()
}
fn cells(s: &str) -> usize {
    textual::segment::Segment::new(s).cell_length()
}

/// The text as its markup shows it, found by hand: `[b]` and `[/b]` only.
fn plain(pieces: &[usize], markup: bool) -> String {
    pieces.iter().map(|p| match (markup, PIECES[*p]) { (true, "[b]" | "[/b]") => "", (true, "\\[z]") => "[z]", (_, p) => p }).collect()
}
const PIECES: [&str; 7] = ["ab", "你", "\n", "[b]", "[/b]", "x y", "\\[z]"];

fn text_widget(label: bool, text: &str, markup: bool, style: &ComputedStyle) -> Wd {
    let mut w: Wd = if label { Box::new(Label::new(text).with_markup(markup)) } else { Box::new(Static::new(text).with_markup(markup)) };
    w.set_style(style.clone());
    w
}

struct Look {
    border: [BorderKind; 4],
    pad: [i32; 4],
    line_pad: u16,
    content_box: bool,
}
fn looks() -> Vec<Look> {
    use BorderKind::*;
    let mut v = vec![];
    for b in [NONE, SOLID, [Solid, None, None, None], [None, Tall, None, Hidden], [Wide, None, Blank, Round]] {
        for pad in [[0; 4], [1, 2, 0, 3]] {
            for line_pad in [0, 2] {
                for content_box in [false, true] {
                    v.push(Look { border: b, pad, line_pad, content_box });
                }
            }
        }
    }
    v
}

fn text_case(pieces: &[usize], markup: bool, looks: &[Look], k: &mut W) -> Result<(), String> {
    let src: String = pieces.iter().map(|p| PIECES[*p]).collect();
    let seen = plain(pieces, markup);
    let lines: Vec<&str> = seen.split('\n').collect();
    let (nw, nh) = (lines.iter().map(|l| cells(l)).max().unwrap(), lines.len());
    let tagged = seen != src;
    for (i, l) in looks.iter().enumerate() {
        let mut s = ComputedStyle::default();
        if i % 3 > 0 { s.width = auto(); }
        if i % 3 > 1 { s.height = auto(); }
        s.border = border(l.border);
        s.padding = spacing(l.pad);
        s.line_pad = l.line_pad;
        s.box_sizing = if l.content_box { BoxSizing::ContentBox } else { BoxSizing::BorderBox };
        let (bw, bh) = border_size(l.border);
        let chrome = (bw + (l.pad[1] + l.pad[3]) as usize, bh + (l.pad[0] + l.pad[2]) as usize);
        let want = (nw + 2 * l.line_pad as usize + chrome.0, nh + chrome.1);
        for label in [false, true] {
            k.step();
            let wd = text_widget(label, &src, markup, &s);
            let d = wd.desired_size();
            let name = if label { "label" } else { "static" };
            // Widths of marked up texts are for the phase of their own
            let width = if tagged { want.0 } else { d.width as usize };
            ensure!((width, d.height as usize) == want, "the {name} {src:?} with border {:?}, padding {:?} and line-pad {} wants {}x{}, but its text needs {}x{}", l.border, l.pad, l.line_pad, d.width, d.height, want.0, want.1);
            // Whatever the width, the height is that of the rows it then takes.
            if seen.is_empty() || seen.ends_with('\n') { continue; }
            for w in chrome.0 + 2 * l.line_pad as usize + 2..=want.0 + 1 {
                k.step();
                let h = wd.intrinsic_height_for_width(w as u16) as usize;
                let tall = want.1 + 14;
                let mut canvas = Canvas::new(w as u16, tall as u16);
                let mut bare = s.clone();
                // The border reaches down to the region's end
                bare.border = border(l.border.map(|k| if matches!(k, BorderKind::None | BorderKind::Hidden) { k } else { BorderKind::Blank }));
                let view = text_widget(label, &src, markup, &bare);
                view.render(&mut canvas, Region::new(0, 0, w as i32, tall as i32));
                let rows = shown(&canvas, w, tall);
                let last = rows.iter().rposition(|r| !r.is_empty()).map_or(0, |y| y + 1);
                let below = l.pad[2] as usize + (border_size([BorderKind::None, BorderKind::None, l.border[2], BorderKind::None]).1);
                ensure!(h == last + below, "the {name} {src:?} with border {:?} and padding {:?} says it is {h} rows high when {w} columns wide, but takes {}: {rows:?}", l.border, l.pad, last + below);
            }
        }
    }
    k.state(&(nw, nh));
    Ok(())
}

/// A child of a container: its text, lengths (None: not given), limits, margin, border.
#[derive(Clone, Debug, Default)]
struct Kid {
    text: &'static str,
    w: Option<Option<i32>>,
    h: Option<Option<i32>>,
    minw: Option<i32>,
    maxw: Option<i32>,
    minh: Option<i32>,
    maxh: Option<i32>,
    margin: [i32; 4],
    border: bool,
    content_box: bool,
    gone: bool,
    /// In a container of its own, with padding.
    boxed: bool,
}

impl Kid {
    fn natural(&self) -> (i32, i32) {
        let chrome = if self.border { 2 } else { 0 };
        let lines: Vec<&str> = self.text.split('\n').collect();
        let size = |given: Option<Option<i32>>, content: i32| match given {
            Some(Some(n)) if self.content_box => n + chrome,
            Some(Some(n)) => n,
            _ => content + chrome,
        };
        let lim = |v: i32, max: Option<i32>, min: Option<i32>| v.min(max.unwrap_or(i32::MAX)).max(min.unwrap_or(0));
        let w = lim(size(self.w, lines.iter().map(|l| cells(l) as i32).max().unwrap()), self.maxw, self.minw);
        let h = lim(size(self.h, lines.len() as i32), self.maxh, self.minh);
        (w, h)
    }
    fn style(&self, color: u8) -> ComputedStyle {
        let given = |g: Option<Option<i32>>| g.map(|v| match v { Some(n) => Scalar::cells(n as f64), None => auto().unwrap() });
        let c = |v: Option<i32>| v.map(|n| Scalar::cells(n as f64));
        let mut s = ComputedStyle::default();
        s.width = given(self.w);
        s.height = given(self.h);
        (s.min_width, s.max_width, s.min_height, s.max_height) = (c(self.minw), c(self.maxw), c(self.minh), c(self.maxh));
        s.margin = spacing(self.margin);
        if self.border { s.border = border(SOLID); }
        s.box_sizing = if self.content_box { BoxSizing::ContentBox } else { BoxSizing::BorderBox };
        s.background = Some(RgbaColor::rgb(color, 7, 7));
        if self.gone { s.display = Display::None; }
        s
    }
    fn build(&self, color: u8) -> Wd {
        let mut w: Wd = Box::new(Static::new(self.text));
        let mut s = self.style(color);
        if self.boxed {
            s.margin = spacing([0; 4]);
            s.display = Display::Block;
            w.set_style(s);
            let mut c: Wd = Box::new(Container::new(vec![w]));
            c.set_style(ComputedStyle { width: auto(), height: auto(), padding: spacing([1, 0, 0, 2]), margin: spacing(self.margin), display: if self.gone { Display::None } else { Display::Block }, ..Default::default() });
            return c;
        }
        w.set_style(s);
        w
    }
    /// What it takes up in its container.
    fn outer(&self) -> (i32, i32) {
        let (w, h) = self.natural();
        if self.boxed { (w + 2, h + 1) } else { (w, h) }
    }
}

/// Length of a row of boxes with collapsing margins: (before, length, after).
fn row(parts: &[(i32, i32, i32)]) -> i32 {
    let mut at = 0;
    let mut last = 0;
    for (i, (b, l, a)) in parts.iter().enumerate() {
        at += if i == 0 { *b } else { (*b).max(last) - last } + l + a;
        last = *a;
    }
    at
}

fn container_case(kids: &[Kid], horizontal: bool, scrolls: bool, look: usize, k: &mut W) -> Result<(), String> {
    let (bk, pad): ([BorderKind; 4], [i32; 4]) = match look { 0 => (NONE, [0; 4]), 1 => (SOLID, [0, 1, 2, 0]), _ => ([BorderKind::None, BorderKind::None, BorderKind::Solid, BorderKind::Solid], [1, 0, 0, 0]) };
    let live: Vec<&Kid> = kids.iter().filter(|k| !k.gone).collect();
    let hs: Vec<_> = live.iter().map(|k| (k.margin[3], k.outer().0, k.margin[1])).collect();
    let vs: Vec<_> = live.iter().map(|k| (k.margin[0], k.outer().1, k.margin[2])).collect();
    let most = |v: &[(i32, i32, i32)]| v.iter().map(|(a, b, c)| a + b + c).max().unwrap_or(0);
    let inner = if horizontal { (row(&hs), most(&vs)) } else { (most(&hs), row(&vs)) };
    let (bw, bh) = border_size(bk);
    let want = (inner.0 + bw as i32 + pad[1] + pad[3], inner.1 + bh as i32 + pad[0] + pad[2]);
    let build = || {
        let ch: Vec<Wd> = kids.iter().enumerate().map(|(i, k)| k.build(100 + i as u8)).collect();
        let mut c: Wd = if scrolls { Box::new(ScrollableContainer::new(ch)) } else { Box::new(Container::new(ch)) };
        c.set_style(ComputedStyle { width: auto(), height: auto(), layout: if horizontal { Layout::Horizontal } else { Layout::Vertical }, border: border(bk), padding: spacing(pad), ..Default::default() });
        c
    };
    let what = || format!("{} {} container with border {bk:?} and padding {pad:?} holding {kids:?}", if scrolls { "scrollable" } else { "plain" }, if horizontal { "horizontal" } else { "vertical" });
    for beside in [false, true] {
        k.step();
        let mut tail: Wd = Box::new(Static::new("#"));
        tail.set_style(ComputedStyle { width: auto(), height: auto(), background: Some(RgbaColor::rgb(99, 7, 7)), ..Default::default() });
        let mut outer = Container::new(vec![build(), tail]);
        Widget::<String>::set_style(&mut outer, ComputedStyle { layout: if beside { Layout::Horizontal } else { Layout::Vertical }, ..Default::default() });
        let (w, h) = (90usize, 60usize);
        let mut canvas = Canvas::new(w as u16, h as u16);
        Widget::<String>::render(&outer, &mut canvas, Region::new(0, 0, w as i32, h as i32));
        let bg = |x: usize, y: usize| match canvas.cell_at(y * w + x).bg { Some(Color::Rgb { r, g: 7, b: 7 }) => r, _ => 0 };
        let tail = (0..w * h).find(|i| bg(i % w, i / w) == 99).map(|i| (i % w, i / w));
        let at = if beside { (want.0 as usize, 0) } else { (0, want.1 as usize) };
        ensure!(tail == Some(at), "the {} takes {}, but needs {}x{}: what follows it is at {tail:?}", what(), if beside { "another width" } else { "another height" }, want.0, want.1);
        // Every child shows in full.
        for (i, kid) in kids.iter().enumerate() {
            let n = (0..w * h).filter(|p| bg(p % w, p / w) == 100 + i as u8).count() as i32;
            let (mut nw, mut nh) = kid.natural();
            if kid.gone { (nw, nh) = (0, 0) }
            let fills = (kid.w.is_none() && !horizontal) || (kid.h.is_none() && horizontal) || (kid.boxed && kid.w.is_none());
            if fills { ensure!(n >= nw.min(1) * nh.min(1), "child {i} of the {} doesn't show", what()); continue; }
            ensure!(n == nw * nh, "child {i} of the {} shows {n} cells and not {nw}x{nh}", what());
        }
    }
    k.state(&(want, live.len()));
    Ok(())
}

/// Rows that the words of a text take when `w` columns are free (all words fit).
fn rows(text: &str, w: i32) -> i32 {
    let (mut n, mut at) = (1, 0);
    for word in text.split(' ') {
        let l = cells(word) as i32;
        if at > 0 && at + 1 + l > w { n += 1; at = l } else { at += l + (at > 0) as i32 }
    }
    n
}

/// A child whose text wraps: its width (None: what the container has left), a max-width,
/// a margin; the text may sit in containers of its own.
#[derive(Clone, Debug)]
struct Wrapping { text: &'static str, w: Option<i32>, maxw: Option<i32>, minh: Option<i32>, margin: [i32; 4], boxes: usize, gone: bool }

impl Wrapping {
    fn size(&self, left: i32) -> (i32, i32) {
        let w = match (self.w, self.maxw) { (Some(w), _) => w, (None, Some(m)) => m.min(left - self.margin[1] - self.margin[3]), _ => left - self.margin[1] - self.margin[3] };
        let b = self.boxes as i32;
        (w, rows(self.text, w - 3 * b).max(self.minh.unwrap_or(0)) + 2 * b)
    }
    fn build(&self, color: u8, scrolls: bool) -> Wd {
        let c = |v: Option<i32>| v.map(|n| Scalar::cells(n as f64));
        let outer = ComputedStyle { width: c(self.w), max_width: c(self.maxw), height: auto(), margin: spacing(self.margin), background: Some(RgbaColor::rgb(color, 7, 7)), display: if self.gone { Display::None } else { Display::Block }, ..Default::default() };
        let mut s = if self.boxes == 0 { outer.clone() } else { ComputedStyle { height: auto(), ..Default::default() } };
        s.min_height = c(self.minh);
        let mut w: Wd = Box::new(Static::new(self.text));
        w.set_style(s);
        for i in 0..self.boxes {
            let mut s = if i + 1 == self.boxes { outer.clone() } else { ComputedStyle { height: auto(), ..Default::default() } };
            s.padding = spacing([1, 1, 0, 2]);
            s.border.bottom = edge(BorderKind::Blank);
            w = if scrolls { Box::new(ScrollableContainer::new(vec![w])) } else { Box::new(Container::new(vec![w])) };
            w.set_style(s);
        }
        w
    }
}

fn wrap_case(kids: &[Wrapping], width: i32, horizontal: bool, scrolls: bool, k: &mut W) -> Result<(), String> {
    k.step();
    let inner = width - 2;
    let live: Vec<&Wrapping> = kids.iter().filter(|k| !k.gone).collect();
    let sizes: Vec<_> = live.iter().map(|k| k.size(inner)).collect();
    let vs: Vec<_> = live.iter().zip(&sizes).map(|(k, s)| (k.margin[0], s.1, k.margin[2])).collect();
    let want = 2 + if horizontal { vs.iter().map(|(a, b, c)| a + b + c).max().unwrap_or(0) } else { row(&vs) };
    let ch: Vec<Wd> = kids.iter().enumerate().map(|(i, k)| k.build(100 + i as u8, scrolls)).collect();
    let mut c: Wd = if scrolls { Box::new(ScrollableContainer::new(ch)) } else { Box::new(Container::new(ch)) };
    c.set_style(ComputedStyle { width: Some(Scalar::cells(width as f64)), height: auto(), layout: if horizontal { Layout::Horizontal } else { Layout::Vertical }, border: border(SOLID), ..Default::default() });
    let mut tail: Wd = Box::new(Static::new("#"));
    tail.set_style(ComputedStyle { width: auto(), height: auto(), background: Some(RgbaColor::rgb(99, 7, 7)), ..Default::default() });
    let outer: Container<String> = Container::new(vec![c, tail]);
    let (w, h) = (60usize, 60usize);
    let mut canvas = Canvas::new(w as u16, h as u16);
    Widget::<String>::render(&outer, &mut canvas, Region::new(0, 0, w as i32, h as i32));
    let bg = |x: usize, y: usize| match canvas.cell_at(y * w + x).bg { Some(Color::Rgb { r, g: 7, b: 7 }) => r, _ => 0 };
    let tail = (0..w * h).find(|i| bg(i % w, i / w) == 99).map(|i| i / w);
    let what = || format!("a {} {} container {width} columns wide holding {kids:?}", if scrolls { "scrollable" } else { "plain" }, if horizontal { "horizontal" } else { "vertical" });
    ensure!(tail == Some(want as usize), "{} needs {want} rows, but what follows it is in row {tail:?}", what());
    // Every text shows in full.
    let seen: String = (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).map(|(x, y)| canvas.cell_at(y * w + x).symbol.clone()).collect();
    for letter in 'a'..='e' {
        let n = live.iter().map(|k| k.text.matches(letter).count()).sum::<usize>();
        let m = seen.matches(letter).count();
        ensure!(m == n, "{} shows {m} {letter:?} of {n}", what());
    }
    k.state(&(want, width, live.len()));
    Ok(())
}

fn c37(ctx: &Ctx) {
    filling(ctx);
    ctx.assume("lengths in cells or auto; children that fill their container have no natural size of their own");
    let lk = looks();
    let (n, len) = (PIECES.len() as u64, ctx.pick(4, 5));
    ctx.explore(&format!("texts of up to {len} pieces, every border, padding and width"), seq_count(n, len) * 2, |i| format!("{:?} markup {}", seq_at(i / 2, n, len).iter().map(|p| PIECES[*p]).collect::<String>(), i % 2), |i, w| {
        text_case(&seq_at(i / 2, n, len), i % 2 == 1, &lk, w)
    });
    // 2. Marked up texts are as wide as what they show.
    let marked = ["[b]ab[/b]", "x [red]y[/] z", "a\\[b]"];
    ctx.explore("marked up texts", marked.len() as u64, |i| marked[i as usize].into(), |i, w| {
        let src = marked[i as usize];
        for label in [false, true] {
            w.step();
            let mut canvas = Canvas::new(40, 1);
            let wd = text_widget(label, src, true, &ComputedStyle::default());
            wd.render(&mut canvas, Region::new(0, 0, 40, 1));
            let need = cells(&shown(&canvas, 40, 1)[0]);
            ensure!(wd.desired_size().width as usize == need, "the text {src:?} wants {} columns but shows {need}", wd.desired_size().width);
        }
        Ok(())
    });
    let a = Some(None);
    let kinds: Vec<Kid> = vec![
        Kid { text: "abc", w: a, h: a, ..Kid::default() },
        Kid { text: "ab\nabcd", w: a, h: a, margin: [1, 2, 3, 1], ..Kid::default() },
        Kid { text: "x", w: Some(Some(5)), h: Some(Some(2)), margin: [2, 0, 1, 3], ..Kid::default() },
        Kid { text: "x", w: Some(Some(3)), h: Some(Some(1)), border: true, content_box: true, ..Kid::default() },
        Kid { text: "[b]wide[/b]", w: a, h: a, ..Kid::default() },
        Kid { text: "abcdef", w: a, h: a, maxw: Some(3), minh: Some(3), ..Kid::default() },
        Kid { text: "ab", w: a, h: a, minw: Some(7), margin: [0, 1, 0, 0], ..Kid::default() },
        Kid { text: "gone", w: a, h: a, margin: [3, 3, 3, 3], gone: true, ..Kid::default() },
        Kid { text: "in", w: a, h: a, margin: [1, 1, 0, 0], boxed: true, ..Kid::default() },
        Kid { text: "none", ..Kid::default() },
        Kid { text: "tall", w: Some(Some(6)), h: Some(Some(5)), maxh: Some(2), ..Kid::default() },
    ];
    let kinds: Vec<Kid> = kinds.into_iter().map(|mut k| { if k.text == "[b]wide[/b]" { k.text = "wide"; } k }).collect();
    let (n, len) = (kinds.len() as u64, ctx.pick(3, 4));
    let dec = |i: u64| -> Vec<Kid> { seq_at(i, n, len).iter().map(|x| kinds[*x].clone()).collect() };
    ctx.explore(&format!("containers of up to {len} children"), seq_count(n, len), |i| format!("{:?}", dec(i)), |i, w| {
        let kids = dec(i);
        for horizontal in [false, true] { for scrolls in [false, true] { for look in 0..3 {
            container_case(&kids, horizontal, scrolls, look, w)?;
        } } }
        Ok(())
    });
    // 4. Rows that wrapping texts take in containers of a given width.
    let base = Wrapping { text: "aa b cc", w: None, maxw: None, minh: None, margin: [0; 4], boxes: 0, gone: false };
    let wraps = [
        base.clone(),
        Wrapping { text: "d aa ee b", w: Some(4), margin: [1, 0, 2, 1], ..base.clone() },
        Wrapping { text: "bb cc aa ddd", maxw: Some(5), margin: [2, 1, 0, 0], ..base.clone() },
        Wrapping { w: Some(6), boxes: 1, margin: [0, 0, 1, 0], ..base.clone() },
        Wrapping { boxes: 2, margin: [1, 1, 0, 0], text: "c dd aa", ..base.clone() },
        Wrapping { text: "e e e", w: Some(9), boxes: 2, minh: Some(2), ..base.clone() },
        Wrapping { gone: true, margin: [4; 4], ..base.clone() },
    ];
    let (n, len) = (wraps.len() as u64, ctx.pick(3, 5));
    let dec = |i: u64| -> Vec<Wrapping> { seq_at(i, n, len).iter().map(|x| wraps[*x].clone()).collect() };
    ctx.explore(&format!("containers of up to {len} wrapping texts"), seq_count(n, len), |i| format!("{:?}", dec(i)), |i, w| {
        let kids = dec(i);
        for width in 12..=22 { for scrolls in [false, true] {
            wrap_case(&kids, width, false, scrolls, w)?;
            if kids.iter().all(|k| k.w.is_some() || k.gone) && kids.len() <= 3 { wrap_case(&kids, 28 + width % 3, true, scrolls, w)?; }
        } }
        Ok(())
    });
    // 5. The same size wherever the widget stands: in the flow, in a row, placed absolutely.
    let texts = ["a", "ab\n你c", "x y\n\nlonger"];
    let lk = looks();
    ctx.explore("text widgets in every position", (texts.len() * lk.len()) as u64, |i| format!("{:?} look {}", texts[i as usize % 3], i / 3), |i, w| {
        let (text, l) = (texts[i as usize % 3], &lk[i as usize / 3]);
        let lines: Vec<&str> = text.split('\n').collect();
        let (bw, bh) = border_size(l.border);
        let want = (lines.iter().map(|l| cells(l)).max().unwrap() + 2 * l.line_pad as usize + bw + (l.pad[1] + l.pad[3]) as usize, lines.len() + bh + (l.pad[0] + l.pad[2]) as usize);
        for label in [false, true] { for (place, given) in [(0, true), (1, true), (2, true), (2, false)] {
            w.step();
            let a = if given { auto() } else { None };
            let mut s = ComputedStyle { width: a.clone(), height: a, border: border(l.border.map(|k| if k == BorderKind::None || k == BorderKind::Hidden { k } else { BorderKind::Blank })), padding: spacing(l.pad), line_pad: l.line_pad, background: Some(RgbaColor::rgb(99, 7, 7)), ..Default::default() };
            s.box_sizing = if l.content_box { BoxSizing::ContentBox } else { BoxSizing::BorderBox };
            if place == 2 { s.position = tcss::types::Position::Absolute; }
            let wd = text_widget(label, text, false, &s);
            let mut c: Wd = Box::new(Container::new(vec![wd]));
            c.set_style(ComputedStyle { layout: if place == 1 { Layout::Horizontal } else { Layout::Vertical }, ..Default::default() });
            let (cw, ch) = (40usize, 20usize);
            let mut canvas = Canvas::new(cw as u16, ch as u16);
            c.render(&mut canvas, Region::new(0, 0, cw as i32, ch as i32));
            let on = |x: usize, y: usize| matches!(canvas.cell_at(y * cw + x).bg, Some(Color::Rgb { r: 99, g: 7, b: 7 }));
            for y in 0..ch { for x in 0..cw {
                ensure!(on(x, y) == (x < want.0 && y < want.1), "a text {text:?} with border {:?}, padding {:?}, line-pad {}, content-box {} needs {}x{}, but {} cell ({x}, {y}) {}", l.border, l.pad, l.line_pad, l.content_box, want.0, want.1, ["in a column", "in a row", "placed absolutely"][place], if on(x, y) { "belongs to it" } else { "doesn't belong to it" });
            } }
            w.state(&(want, place));
        } }
        Ok(())
    });
}

/// A box sized auto around something that takes all there is takes all there is: exactly as if it were 1fr.
fn filling(ctx: &Ctx) {
    const INSIDE: &[(f64, Unit)] = &[(1.0, Unit::Fraction), (50.0, Unit::Percent), (100.0, Unit::Percent), (40.0, Unit::ViewWidth), (30.0, Unit::ViewHeight), (50.0, Unit::Width), (50.0, Unit::Height)];
    const PLACES: [&str; 4] = ["in a column", "in a row", "in a grid", "placed absolutely"];
    let axes = [(true, false), (false, true), (true, true)];
    let margins = [[0; 4], [1, 2, 1, 2]];
    let total = (INSIDE.len() * PLACES.len() * 3 * 2 * 3 * 2 * 3 * 2) as u64;
    let dec = |i: u64| {
        let mut m = Mix(i);
        let (inside, place, axis, margin, kind, depth, before, look) = (*m.of(INSIDE), m.pick(4), *m.of(&axes), *m.of(&margins), m.pick(3), m.pick(2), m.pick(3), m.pick(2));
        (inside, place, axis, margin, kind, depth, before, look)
    };
    ctx.explore("auto around what takes all there is", total, |i| format!("{:?}", dec(i)), |i, w| {
        let (inside, place, (wide, high), margin, kind, depth, before, look) = dec(i);
        let shape = |auto_size: bool| -> Vec<u8> {
            let mut kid: Wd = Box::new(Container::new(vec![]));
            let rel = |on: bool| Some(if on { Scalar { value: inside.0, unit: inside.1 } } else { Scalar { value: 3.0, unit: Unit::Cells } });
            kid.set_style(ComputedStyle { width: rel(wide), height: rel(high), background: Some(RgbaColor::rgb(50, 7, 7)), ..Default::default() });
            let mut own = |on: bool, level: usize| {
                if !on { return Some(Scalar { value: 5.0, unit: Unit::Cells }) }
                if auto_size || level < depth { auto() } else { Some(Scalar { value: 1.0, unit: Unit::Fraction }) }
            };
            for level in 0..=depth {
                let mut c: Wd = match kind { 0 | 1 => Box::new(Container::new(vec![kid])), _ => Box::new(ScrollableContainer::new(vec![kid])) };
                let outermost = level == depth;
                let mut s = ComputedStyle { width: own(wide, level), height: own(high, level), layout: if kind == 1 { Layout::Horizontal } else { Layout::Vertical }, ..Default::default() };
                if outermost {
                    s.background = Some(RgbaColor::rgb(100, 7, 7));
                    s.margin = spacing(margin);
                    if look == 1 { s.border = border(SOLID); s.padding = spacing([0, 1, 0, 1]); }
                    if place == 3 { s.position = tcss::types::Position::Absolute; }
                }
                c.set_style(s);
                kid = c;
            }
            let mut kids: Vec<Wd> = (0..before).map(|k| {
                let mut t: Wd = Box::new(Static::new("#"));
                t.set_style(ComputedStyle { width: auto(), height: auto(), background: Some(RgbaColor::rgb(20 + k as u8, 7, 7)), ..Default::default() });
                t
            }).collect();
            kids.push(kid);
            let mut outer = Container::new(kids);
            Widget::<String>::set_style(&mut outer, ComputedStyle { layout: match place { 1 => Layout::Horizontal, 2 => Layout::Grid, _ => Layout::Vertical }, ..Default::default() });
            let (cw, ch) = (30usize, 20usize);
            let mut canvas = Canvas::new(cw as u16, ch as u16);
            Widget::<String>::render(&outer, &mut canvas, Region::new(0, 0, cw as i32, ch as i32));
            (0..cw * ch).map(|i| match canvas.cell_at(i).bg { Some(Color::Rgb { r, g: 7, b: 7 }) => if r == 50 { 100 } else { r }, _ => 0 }).collect()
        };
        w.step();
        let (got, want) = (catch(|| shape(true))?, shape(false));
        let box_of = |v: &[u8]| {
            let c: Vec<usize> = (0..v.len()).filter(|&i| v[i] == 100).collect();
            (c.iter().map(|i| i % 30).min(), c.iter().map(|i| i / 30).min(), c.iter().map(|i| i % 30).max(), c.iter().map(|i| i / 30).max(), c.len())
        };
        w.outcome(&box_of(&got));
        ensure!(got == want, "{}: sized auto it covers {:?}, sized 1fr {:?}", PLACES[place], box_of(&got), box_of(&want));
        Ok(())
    });
}

fn main() {
    main_with(&[("C37", c37)]);
}
