//! C40 headers, placeholders, rulers and spinners show the state they are in.
use crossterm::event::{KeyModifiers, MouseButton, MouseEvent, MouseEventKind};
use crossterm::style::Color;
use mc::probe::*;
use mc::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
use tcss::parser::{parse_stylesheet, StyleSheet};
use tcss::types::Theme;
use textual::style_resolver::resolve_styles;
use textual::testing::build_combined_css;
use textual::tree::{clear_all_hover, collect_pending_actions_mut};
use textual::widget::header::Header;
use textual::widget::loading_indicator::LoadingIndicator;
use textual::widget::placeholder::{reset_placeholder_counter, Placeholder, PlaceholderVariant};
use textual::widget::ruler::Ruler;
use textual::widget::screen::Screen;
use textual::widget::Widget;
use textual::{Canvas, Label, Region, Size};

trait Wide {
    fn width(&self) -> usize;
}
impl Wide for str {
    fn width(&self) -> usize {
        self.chars().map(|c| if (c as u32) >= 0x4e00 && (c as u32) < 0xa000 { 2 } else { 1 }).sum()
    }
}

fn theme() -> &'static Theme {
    static THEME: std::sync::OnceLock<Theme> = std::sync::OnceLock::new();
    THEME.get_or_init(|| Theme::standard_themes().get("textual-dark").cloned().unwrap())
}

fn rgb(c: Option<Color>) -> Option<(u8, u8, u8)> {
    match c {
        Some(Color::Rgb { r, g, b }) => Some((r, g, b)),
        _ => None,
    }
}

fn near(c: Option<Color>, want: (u8, u8, u8)) -> bool {
    rgb(c).is_some_and(|c| c.0.abs_diff(want.0) <= 1 && c.1.abs_diff(want.1) <= 1 && c.2.abs_diff(want.2) <= 1)
}

/// A tree with its stylesheet, drawn as the app does.
struct App {
    root: W1,
    sheet: Rc<StyleSheet>,
    size: (u16, u16),
}

thread_local! {
    static LAST: RefCell<Option<(String, Rc<StyleSheet>)>> = const { RefCell::new(None) };
}

/// The stylesheet of a tree; one that is asked for again and again is parsed once (a case's trees are of the same types).
fn sheet_of(root: &mut dyn Widget<Msg>, css: &str) -> Rc<StyleSheet> {
    let all = build_combined_css(root, css);
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        if l.as_ref().is_none_or(|(c, _)| *c != all) {
            let sheet = Rc::new(parse_stylesheet(&all).expect("css"));
            *l = Some((all, sheet));
        }
        l.as_ref().unwrap().1.clone()
    })
}

impl App {
    fn new(kids: Vec<W1>, css: &str, size: (u16, u16)) -> App {
        let mut root: W1 = Box::new(Screen::new(kids));
        let sheet = sheet_of(root.as_mut(), css);
        let mut a = App { root, sheet, size };
        a.resize(size.0, size.1);
        a
    }
    fn resize(&mut self, w: u16, h: u16) {
        self.size = (w, h);
        self.root.on_resize(Size::new(w, h));
    }
    fn draw(&mut self) -> Canvas {
        let mut anc = VecDeque::new();
        resolve_styles(self.root.as_mut(), &self.sheet, theme(), &mut anc);
        let mut c = Canvas::new(self.size.0, self.size.1);
        self.root.render(&mut c, Region::from_u16(0, 0, self.size.0, self.size.1));
        c
    }
    fn mouse(&mut self, kind: MouseEventKind, x: i32, y: i32) {
        let e = MouseEvent { kind, column: x as u16, row: y as u16, modifiers: KeyModifiers::NONE };
        if kind == MouseEventKind::Moved {
            clear_all_hover(self.root.as_mut());
        }
        self.root.on_mouse(e, Region::from_u16(0, 0, self.size.0, self.size.1));
    }
    fn with<T: 'static, R>(&mut self, path: &[usize], f: impl FnOnce(&mut T) -> R) -> R {
        at(self.root.as_mut(), path, |w| f(w.as_any_mut().expect("any").downcast_mut::<T>().expect("type")))
    }
}

/// The cells of a row, wide glyphs followed by nothing.
fn cells(c: &Canvas, w: u16, y: i32) -> Vec<String> {
    (0..w as i32).map(|x| c.cell_at((y * w as i32 + x) as usize).symbol.to_string()).collect()
}

/// The columns a line takes.
fn columns(line: &str) -> Vec<String> {
    let mut v = vec![];
    for ch in line.chars() {
        let n = ch.to_string().width();
        v.push(ch.to_string());
        v.extend((1..n).map(|_| String::new()));
    }
    v
}

/// Words put on lines as long as they fit; a longer word is cut.
fn wrapped(text: &str, width: usize) -> Vec<String> {
    let mut out = vec![];
    for par in text.split('\n') {
        if par.is_empty() {
            out.push(String::new());
            continue;
        }
        let mut line = String::new();
        for word in par.split_whitespace() {
            if !line.is_empty() && line.width() + 1 + word.width() <= width {
                line = format!("{line} {word}");
                continue;
            }
            if !line.is_empty() {
                out.push(std::mem::take(&mut line));
            }
            for ch in word.chars() {
                if !line.is_empty() && line.width() + ch.to_string().width() > width {
                    out.push(std::mem::take(&mut line));
                }
                line.push(ch);
            }
        }
        if !line.is_empty() {
            out.push(line);
        }
    }
    out
}

const LOREM: &str = "Lorem ipsum dolor sit amet, consectetur adipiscing elit. Etiam feugiat ac elit sit amet accumsan. Suspendisse bibendum nec libero quis gravida. Phasellus id eleifend ligula. Nullam imperdiet sem tellus, sed vehicula nisl faucibus sit amet. Praesent iaculis tempor ultricies. Sed lacinia, tellus id rutrum lacinia, sapien sapien congue mauris, sit amet pellentesque quam quam vel nisl. Curabitur vulputate erat pellentesque mauris posuere, non dictum risus mattis.";

fn lorem() -> String {
    [LOREM; 5].join("\n\n")
}

const PALETTE: [(u8, u8, u8); 12] = [(0x88, 0x11, 0x77), (0xaa, 0x33, 0x55), (0xcc, 0x66, 0x66), (0xee, 0x99, 0x44), (0xee, 0xdd, 0x00), (0x99, 0xdd, 0x55), (0x44, 0xdd, 0x88), (0x22, 0xcc, 0xbb), (0x00, 0xbb, 0xcc), (0x00, 0x99, 0xcc), (0x33, 0x66, 0xbb), (0x66, 0x33, 0x99)];

fn half(c: (u8, u8, u8), under: (u8, u8, u8)) -> (u8, u8, u8) {
    let m = |a: u8, b: u8| ((a as f32 + b as f32) / 2.0).round() as u8;
    (m(c.0, under.0), m(c.1, under.1), m(c.2, under.2))
}

/// What a placeholder in a box shows: the lines of text by row and column of the box.
fn placeholder_rows(content: &str, wrap: bool, w: i32, h: i32, pad: (i32, i32, i32, i32)) -> Vec<Vec<String>> {
    let (t, r, b, l) = pad;
    let (cw, ch) = (w - l - r, h - t - b);
    let mut rows = vec![vec![" ".to_string(); w as usize]; h as usize];
    if cw <= 0 || ch <= 0 {
        return rows;
    }
    let mut lines = if wrap { wrapped(content, cw as usize) } else { vec![content.to_string()] };
    // The block of a label is as wide as its longest line, shown or not; that of the long text as what is shown.
    let widest = |l: &[String]| l.iter().map(|l| l.width() as i32).max().unwrap_or(0);
    let all = widest(&lines);
    lines.truncate(ch as usize);
    let longest = if content.len() > 1000 { widest(&lines) } else { all };
    let (x0, y0) = ((cw - longest).max(0) / 2, (ch - lines.len() as i32) / 2);
    for (i, line) in lines.iter().enumerate() {
        for (k, s) in columns(line).into_iter().enumerate().take((cw - x0) as usize) {
            rows[(t + y0) as usize + i][(l + x0) as usize + k] = s;
        }
    }
    rows
}

const LABELS: &[Option<&str>] = &[None, Some(""), Some("a"), Some("one two"), Some("longestword"), Some("one two three four five"), Some("a\nbb c\nd"), Some("a\n\nb"), Some("漢字 b"), Some("  x  y ")];
const PADS: &[(&str, (i32, i32, i32, i32))] = &[("", (0, 0, 0, 0)), ("padding: 1;", (1, 1, 1, 1)), ("padding: 0 2 1 0;", (0, 2, 1, 0)), ("padding: 1 0 0 3;", (1, 0, 0, 3))];
const COLORS: &[&str] = &["", "background: rgb(10, 20, 30); color: rgb(200, 100, 0);", "background: rgb(100, 0, 0) 50%; color: rgb(0, 100, 0);"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Click {
    In,
    Edge,
    Right,
    Beside,
    Move,
    Up,
}
const CLICKS: [Click; 6] = [Click::In, Click::Edge, Click::Right, Click::Beside, Click::Move, Click::Up];

fn placeholder_phase(ctx: &Ctx) {
    // The longest histories are taken in every third box.
    let (depth, rare) = ctx.pick((2u32, 3), (4, 3));
    let sizes: Vec<(i32, i32)> = (1..=14).flat_map(|w| (1..=6).map(move |h| (w, h))).filter(|(w, h)| ctx.thorough() || [1, 2, 3, 5, 7, 8, 11, 14].contains(w) && *h != 5).collect();
    let n = (LABELS.len() * 2 * PADS.len() * COLORS.len() * sizes.len()) as u64;
    ctx.explore(
        "a placeholder and clicks",
        n,
        |i| {
            let mut m = Mix(i);
            let (label, id, pad, color, size) = (m.of(LABELS), m.pick(2), m.of(PADS), m.of(COLORS), *m.of(&sizes));
            format!("label {label:?} {} {} {color} size {size:?}", ["no id", "id p"][id], pad.0)
        },
        |i, w| {
            let mut m = Mix(i);
            let (label, id, pad, color, (pw, ph)) = (*m.of(LABELS), m.pick(2) == 1, m.of(PADS), m.pick(3), *m.of(&sizes));
            let before = (i % 25) as usize;
            let (sw, sh) = (20u16, 10u16);
            let css = format!("Screen {{ background: rgb(40, 60, 80); overflow: hidden; }} Placeholder {{ width: {pw}; height: {ph}; margin: 2 0 0 3; {} {} }}", pad.0, COLORS[color]);
            let depth = if (i / 5) % rare == 0 { depth } else { depth - 1 };
            let under = (40, 60, 80);
            let want_bg = match color {
                0 => half(PALETTE[before % 12], under),
                1 => (10, 20, 30),
                _ => half((100, 0, 0), under),
            };
            for h in 0..seq_count(CLICKS.len() as u64, depth) {
                let ops = seq_at(h, CLICKS.len() as u64, depth);
                reset_placeholder_counter();
                for _ in 0..before {
                    let _ = Placeholder::new();
                }
                let mut p = Placeholder::new();
                if let Some(l) = label {
                    p = p.with_label(l);
                }
                if id {
                    p = p.with_id("p");
                }
                let first = [PlaceholderVariant::Default, PlaceholderVariant::Size, PlaceholderVariant::Text];
                let mut variant = (i as usize / 7) % 3;
                if variant > 0 {
                    p = p.with_variant(first[variant]);
                }
                let mut app = App::new(vec![Box::new(p)], &css, (sw, sh));
                app.draw();
                for o in &ops {
                    w.step();
                    let (kind, x, y) = match CLICKS[*o] {
                        Click::In => (MouseEventKind::Down(MouseButton::Left), 3, 2),
                        Click::Edge => (MouseEventKind::Down(MouseButton::Left), 3 + pw - 1, 2 + ph - 1),
                        Click::Right => (MouseEventKind::Down(MouseButton::Right), 3, 2 + ph - 1),
                        Click::Beside => (MouseEventKind::Down(MouseButton::Left), [3 + pw, 2, 3, 3][*o % 4], [2, 2, 1, 2 + ph][*o % 4]),
                        Click::Move => (MouseEventKind::Moved, 3, 2),
                        Click::Up => (MouseEventKind::Up(MouseButton::Left), 3, 2),
                    };
                    if matches!(CLICKS[*o], Click::In | Click::Edge | Click::Right) {
                        variant = (variant + 1) % 3;
                    }
                    app.mouse(kind, x, y);
                }
                let c = app.draw();
                let name: Vec<Click> = ops.iter().map(|o| CLICKS[*o]).collect();
                let (t, r, b, l) = pad.1;
                let (cw, ch) = (pw - l - r, ph - t - b);
                let own = label.map(str::to_string).unwrap_or(if id { "#p".into() } else { "Placeholder".into() });
                let rows = match variant {
                    0 => placeholder_rows(&own, true, pw, ph, pad.1),
                    1 => placeholder_rows(&format!("{pw} x {ph}"), false, pw, ph, pad.1),
                    _ => placeholder_rows(&lorem(), true, pw, ph, (t + 1, r + 1, b + 1, l + 1)),
                };
                let see = || -> Result<(), String> {
                    // Where a glyph or the text's own padding does not fit, only what lies outside the content is looked at.
                    let vague = variant == 2 && (cw < 3 || ch < 3) || own.contains('漢') && variant == 0 && cw < 2;
                    for y in 0..sh as i32 {
                        for x in 0..sw as i32 {
                            let cell = c.cell_at((y * sw as i32 + x) as usize);
                            let (bx, by) = (x - 3, y - 2);
                            if !(0..pw).contains(&bx) || !(0..ph).contains(&by) {
                                ensure!(cell.symbol.trim().is_empty() && near(cell.bg, under), "the placeholder draws outside its box at {x},{y}: {:?} {:?}", cell.symbol, cell.bg);
                                continue;
                            }
                            ensure!(near(cell.bg, want_bg), "the background at {bx},{by} of the box is {:?}, expected {want_bg:?}", cell.bg);
                            let inside = (l..l + cw).contains(&bx) && (t..t + ch).contains(&by);
                            if vague && inside {
                                continue;
                            }
                            let want = &rows[by as usize][bx as usize];
                            ensure!(cell.symbol.as_str() == want || want.trim().is_empty() && cell.symbol.trim().is_empty(), "the box shows {:?} at {bx},{by}, expected {want:?}", cell.symbol);
                            if !want.trim().is_empty() {
                                match color {
                                    0 => ensure!(rgb(cell.fg).is_some() && rgb(cell.fg) != rgb(cell.bg), "the text at {bx},{by} has the colour {:?} on {:?}", cell.fg, cell.bg),
                                    1 => ensure!(near(cell.fg, (200, 100, 0)), "the text at {bx},{by} has the colour {:?}", cell.fg),
                                    _ => ensure!(near(cell.fg, (0, 100, 0)), "the text at {bx},{by} has the colour {:?}", cell.fg),
                                }
                                ensure!(cell.attrs.bold == (variant == 1), "the text at {bx},{by} is {}bold", if cell.attrs.bold { "" } else { "not " });
                            }
                        }
                    }
                    Ok(())
                };
                see().map_err(|e| format!("after {name:?} ({:?}): {e}\n{}", first[variant], c.to_snapshot()))?;
                w.outcome(&(variant, rows.concat().concat()));
            }
            w.state(&i);
            Ok(())
        },
    );
}

/// The box of a placeholder sized by its content.
fn auto_phase(ctx: &Ctx) {
    let widths: Vec<i32> = (1..=ctx.pick(24, 40)).collect();
    let n = (LABELS.len() * PADS.len() * 3 * widths.len()) as u64;
    ctx.explore(
        "a placeholder sized by what it shows",
        n,
        |i| {
            let mut m = Mix(i);
            format!("label {:?} {} variant {} width {}", m.of(LABELS), m.of(PADS).0, m.pick(3), m.of(&widths))
        },
        |i, w| {
            let mut m = Mix(i);
            let (label, pad, variant, pw) = (*m.of(LABELS), m.of(PADS), m.pick(3), *m.of(&widths));
            let (t, r, b, l) = pad.1;
            let own = label.unwrap_or("Placeholder");
            // The text keeps one more cell free around it.
            let extra = if variant == 2 { 1 } else { 0 };
            let cw = pw - l - r - 2 * extra;
            // The size shown is as wide as five cells or more; in less room it is cut.
            let need = if variant == 0 { 2 } else { 5 };
            if cw < need {
                return Ok(());
            }
            let lines = match variant {
                0 => wrapped(own, cw as usize).len(),
                1 => 1,
                _ => wrapped(&lorem(), cw as usize).len(),
            }
            .max(1);
            let want = lines as i32 + t + b + 2 * extra;
            let (sw, sh) = (44u16, (want + 8) as u16);
            let css = format!("Screen {{ background: black; overflow: hidden; }} Placeholder {{ width: {pw}; height: auto; background: rgb(10, 20, 30); {} }} #m {{ background: rgb(0, 0, 90); width: 3; }}", pad.0);
            let mut p = Placeholder::new();
            if let Some(l) = label {
                p = p.with_label(l);
            }
            let mut app = App::new(vec![Box::new(p), Box::new(Label::new("m").with_id("m"))], &css, (sw, sh));
            app.draw();
            for _ in 0..variant {
                app.mouse(MouseEventKind::Down(MouseButton::Left), 0, 0);
            }
            w.step();
            let c = app.draw();
            let rows = (0..sh as i32).filter(|y| rgb(c.cell_at((y * sw as i32) as usize).bg) == Some((10, 20, 30))).count() as i32;
            ensure!(rows == want, "the box is {rows} rows high, expected {want}\n{}", c.to_snapshot());
            ensure!(rgb(c.cell_at((want * sw as i32) as usize).bg) == Some((0, 0, 90)), "the next widget does not follow at once\n{}", c.to_snapshot());
            let text = if variant == 2 { lorem() } else { own.to_string() };
            if variant != 1 {
                let shown: Vec<String> = (0..want).map(|y| cells(&c, sw, y).concat()).collect();
                let words: Vec<&str> = text.split_whitespace().collect();
                let seen = shown.concat().split_whitespace().collect::<String>();
                ensure!(seen == words.concat(), "the box shows {seen:?}, expected {:?}\n{}", words.concat(), c.to_snapshot());
            }
            w.outcome(&rows);
            w.state(&i);
            Ok(())
        },
    );
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum HOp {
    Title(&'static str),
    Sub(&'static str),
    Clear,
    Tall(bool),
    Classes(&'static str),
    Resize(u16),
    MoveIcon,
    MoveTitle,
    DownIcon,
    UpIcon,
    UpTitle,
    DownTitle,
}

const HOPS: &[HOp] = &[
    HOp::Title("Other"),
    HOp::Title("A rather long title for a header"),
    HOp::Title(""),
    HOp::Title("題名"),
    HOp::Sub("sub"),
    HOp::Sub("and a long subtitle as well"),
    HOp::Sub(""),
    HOp::Clear,
    HOp::Tall(true),
    HOp::Tall(false),
    HOp::Classes("x"),
    HOp::Resize(18),
    HOp::Resize(19),
    HOp::Resize(27),
    HOp::Resize(41),
    HOp::MoveIcon,
    HOp::MoveTitle,
    HOp::DownIcon,
    HOp::UpIcon,
    HOp::UpTitle,
    HOp::DownTitle,
];

fn header_phase(ctx: &Ctx) {
    let depth = ctx.pick(3, 4) as u32;
    // How the header is built: subtitle, tall, and classes given before or after that.
    let builds = ["plain", "subtitle", "tall", "tall then classes", "classes then tall", "id and subtitle"];
    let long = seq_count(HOPS.len() as u64, depth);
    let short = seq_count(HOPS.len() as u64, depth - 1);
    // The longest histories are taken of two of the headers only, the others are one shorter.
    let mut cases: Vec<(usize, u64)> = (0..long).flat_map(|s| [(0, s), (3, s)]).collect();
    cases.extend((0..short).flat_map(|s| [1, 2, 4, 5].map(|b| (b, s))));
    ctx.explore(
        "a header through a history",
        cases.len() as u64,
        |i| {
            let (b, s) = cases[i as usize];
            format!("{}: {:?}", builds[b], seq_at(s, HOPS.len() as u64, depth).iter().map(|o| HOPS[*o]).collect::<Vec<_>>())
        },
        |i, w| {
            let (build, s) = cases[i as usize];
            let ops = seq_at(s, HOPS.len() as u64, depth);
            let mut h = Header::<Msg>::new("Title");
            let (mut title, mut sub, mut tall, mut x) = ("Title", None, false, false);
            match build {
                1 => {
                    h = h.with_subtitle("first");
                    sub = Some("first");
                }
                2 => {
                    h = h.with_tall(true);
                    tall = true;
                }
                3 => {
                    h = h.with_tall(true).with_classes("x");
                    (tall, x) = (true, true);
                }
                4 => {
                    h = h.with_classes("x").with_tall(true);
                    (tall, x) = (true, true);
                }
                5 => {
                    h = h.with_id("h").with_subtitle("first");
                    sub = Some("first");
                }
                _ => {}
            }
            let css = "Screen { background: black; overflow: hidden; } Header { background: rgb(10, 20, 30); color: rgb(200, 210, 220); } .x { background: rgb(30, 20, 10); } HeaderIcon:hover { background: rgb(90, 0, 0); } #m { background: rgb(0, 0, 90); width: 3; }";
            let mut app = App::new(vec![Box::new(h), Box::new(Label::new("m").with_id("m"))], css, (33, 6));
            let (mut hover, mut active) = (false, false);
            for step in 0..=ops.len() {
                let mut want_action = false;
                if step > 0 {
                    w.step();
                    let title_x = app.size.0 as i32 / 2;
                    match HOPS[ops[step - 1]] {
                        HOp::Title(t) => {
                            title = t;
                            app.with::<Header<Msg>, _>(&[0], |h| h.set_title(t));
                        }
                        HOp::Sub(s) => {
                            sub = Some(s);
                            app.with::<Header<Msg>, _>(&[0], |h| h.set_subtitle(s));
                        }
                        HOp::Clear => {
                            sub = None;
                            app.with::<Header<Msg>, _>(&[0], |h| h.clear_subtitle());
                        }
                        HOp::Tall(t) => {
                            tall = t;
                            at(app.root.as_mut(), &[0], |h| if t { h.add_class("-tall") } else { h.remove_class("-tall") });
                        }
                        HOp::Classes(c) => {
                            x = true;
                            at(app.root.as_mut(), &[0], |h| h.set_classes(c));
                        }
                        HOp::Resize(n) => app.resize(n, 6),
                        HOp::MoveIcon => {
                            hover = true;
                            app.mouse(MouseEventKind::Moved, 4, 0);
                        }
                        HOp::MoveTitle => {
                            hover = false;
                            app.mouse(MouseEventKind::Moved, title_x, 0);
                        }
                        HOp::DownIcon => {
                            active = true;
                            app.mouse(MouseEventKind::Down(MouseButton::Left), 0, 0);
                        }
                        HOp::UpIcon => {
                            want_action = active;
                            active = false;
                            app.mouse(MouseEventKind::Up(MouseButton::Left), 7, 0);
                        }
                        HOp::UpTitle => {
                            active = false;
                            app.mouse(MouseEventKind::Up(MouseButton::Left), title_x, 0);
                            textual::tree::clear_all_active(app.root.as_mut());
                        }
                        HOp::DownTitle => app.mouse(MouseEventKind::Down(MouseButton::Left), title_x, 0),
                    }
                }
                if step < ops.len() && step > 0 {
                    // Prefixes are histories of their own.
                    app.draw();
                    collect_pending_actions_mut(app.root.as_mut());
                    continue;
                }
                let c = app.draw();
                let got = collect_pending_actions_mut(app.root.as_mut());
                let sw = app.size.0;
                let mut see = || -> Result<(), String> {
                    ensure!(got == if want_action { vec!["app.command_palette".to_string()] } else { vec![] }, "the actions are {got:?}, expected the palette: {want_action}");
                    let (is_tall, t, s) = app.with::<Header<Msg>, _>(&[0], |h| (h.is_tall(), h.title().to_string(), h.subtitle().map(str::to_string)));
                    ensure!(t == title && s.as_deref() == sub, "the title is {t:?}, the subtitle {s:?}, expected {title:?} {sub:?}");
                    ensure!(is_tall == tall, "the header says tall {is_tall}, expected {tall}");
                    let height = if tall { 3 } else { 1 };
                    let avail = (sw as i32 - 18).max(0);
                    let mut text: Vec<String> = columns(title);
                    let mut dim = vec![false; text.len()];
                    if let Some(s) = sub.filter(|s| !s.is_empty()) {
                        text.push(" ".into());
                        dim.push(false);
                        let more = columns(&format!("— {s}"));
                        dim.extend(more.iter().map(|_| true));
                        text.extend(more);
                    }
                    let cut = text.len() as i32 > avail;
                    let start = 8 + (avail - text.len() as i32).max(0) / 2;
                    let bg = if x { (30, 20, 10) } else { (10, 20, 30) };
                    for y in 0..6i32 {
                        for cx in 0..sw as i32 {
                            let cell = c.cell_at((y * sw as i32 + cx) as usize);
                            if y >= height {
                                if y == height && cx < 3 {
                                    ensure!(near(cell.bg, (0, 0, 90)), "the next widget does not follow the header at {cx},{y}: {:?}", cell.bg);
                                } else {
                                    ensure!(cell.symbol.trim().is_empty() && near(cell.bg, (0, 0, 0)), "the header draws at {cx},{y}: {:?} {:?}", cell.symbol, cell.bg);
                                }
                                continue;
                            }
                            let want_bg = if cx < 8 && hover { (90, 0, 0) } else { bg };
                            ensure!(near(cell.bg, want_bg), "the background at {cx},{y} is {:?}, expected {want_bg:?}", cell.bg);
                            let want = if y != height / 2 {
                                " "
                            } else if cx == 1 {
                                "⭘"
                            } else if cut && (8..8 + avail).contains(&cx) {
                                // Cut short: the beginning, and a sign that there is more.
                                let k = (cx - 8) as usize;
                                let shown = &cells(&c, sw, y)[8..(8 + avail) as usize];
                                let Some(e) = shown.iter().position(|s| s == "…") else {
                                    return Err(format!("the title is cut without a sign: {shown:?}"));
                                };
                                ensure!(e as i32 >= avail - 2, "the title is cut to {e} of {avail} columns: {shown:?}");
                                ensure!(shown[e + 1..].iter().all(|s| s.trim().is_empty()), "there is text after the sign that it is cut: {shown:?}");
                                if k < e {
                                    &text[k]
                                } else {
                                    continue;
                                }
                            } else if cx >= start && cx < 8 + avail && ((cx - start) as usize) < text.len() {
                                let k = (cx - start) as usize;
                                ensure!(text[k].trim().is_empty() || cell.attrs.dim == dim[k], "the cell {cx},{y} is {}dim", if cell.attrs.dim { "" } else { "not " });
                                &text[k]
                            } else {
                                " "
                            };
                            ensure!(cell.symbol.as_str() == want || want.trim().is_empty() && cell.symbol.trim().is_empty(), "the header shows {:?} at {cx},{y}, expected {want:?}", cell.symbol);
                        }
                    }
                    Ok(())
                };
                see().map_err(|e| format!("after {:?}: {e}\n{}", ops[..step].iter().map(|o| HOPS[*o]).collect::<Vec<_>>(), c.to_snapshot()))?;
                w.outcome(&(title, sub, tall, hover, want_action, sw));
            }
            w.state(&i);
            Ok(())
        },
    );
}

fn ruler_phase(ctx: &Ctx) {
    let most = ctx.pick(130u64, 400);
    let classes = ["", "x", "x y", "add", "with"];
    ctx.explore(
        "rulers",
        most * 2 * 5,
        |i| {
            let mut m = Mix(i);
            format!("{} classes {:?} length {}", ["vertical", "horizontal"][m.pick(2)], m.of(&classes), m.0 + 1)
        },
        |i, w| {
            let mut m = Mix(i);
            let (horizontal, class) = (m.pick(2) == 1, *m.of(&classes));
            let n = (m.0 + 1) as u16;
            let mut r = if horizontal { Ruler::<Msg>::horizontal() } else { Ruler::vertical() };
            if class == "with" {
                r = r.with_classes("x");
            }
            let css = "Screen { background: black; overflow: hidden; } Ruler { color: rgb(200, 0, 0); background: rgb(0, 0, 90); } .x { color: rgb(0, 200, 0); }";
            let (sw, sh) = if horizontal { (n, 4) } else { (6, n) };
            let mut app = App::new(vec![Box::new(r), Box::new(Label::new("m").with_id("m"))], css, (sw, sh));
            app.draw();
            at(app.root.as_mut(), &[0], |r| match class {
                "x" | "x y" => r.set_classes(class),
                "add" => {
                    r.add_class("x");
                    r.add_class("y");
                    r.remove_class("y");
                }
                _ => {}
            });
            w.step();
            let c = app.draw();
            let color = if class.is_empty() { (200, 0, 0) } else { (0, 200, 0) };
            for y in 0..sh {
                for x in 0..sw {
                    let cell = c.cell_at((y as usize) * sw as usize + x as usize);
                    let on = if horizontal { y == sh - 1 } else { x == sw - 1 };
                    if on {
                        let k = if horizontal { x } else { y };
                        let want = if (k + 1) % 5 == 0 { "•" } else { "·" };
                        ensure!(cell.symbol.as_str() == want && near(cell.fg, color) && near(cell.bg, (0, 0, 90)), "the ruler shows {:?} {:?} {:?} at {x},{y}, expected {want:?} {color:?}\n{}", cell.symbol, cell.fg, cell.bg, c.to_snapshot());
                    } else if (x, y) != (0, 0) {
                        ensure!(cell.symbol.trim().is_empty() && near(cell.bg, (0, 0, 0)), "the ruler draws {:?} at {x},{y}\n{}", cell.symbol, c.to_snapshot());
                    }
                }
            }
            w.outcome(&c.to_snapshot());
            w.state(&i);
            Ok(())
        },
    );
}

const SPIN: [&str; 10] = ["⠋", "⠙", "⠹", "⠸", "⠼", "⠴", "⠦", "⠧", "⠇", "⠏"];

fn spinner_phase(ctx: &Ctx) {
    let names = ["tick", "hide", "show", "class", "no class", "nine ticks"];
    let depth = ctx.pick(5, 7) as u32;
    ctx.explore(
        "a spinner through a history",
        seq_count(6, depth),
        |i| format!("{:?}", seq_at(i, 6, depth).iter().map(|o| names[*o]).collect::<Vec<_>>()),
        |i, w| {
            let css = "Screen { background: black; overflow: hidden; } LoadingIndicator { color: rgb(200, 0, 0); } .x { color: rgb(0, 200, 0); }";
            let mut app = App::new(vec![Box::new(LoadingIndicator::<Msg>::new()), Box::new(Label::new("m").with_id("m"))], css, (6, 3));
            let (mut ticks, mut shown, mut class) = (0, true, false);
            for o in seq_at(i, 6, depth) {
                w.step();
                match o {
                    0 | 5 => {
                        let n = if o == 0 { 1 } else { 9 };
                        ticks += n;
                        app.with::<LoadingIndicator<Msg>, _>(&[0], |l| (0..n).for_each(|_| l.tick()));
                    }
                    1 | 2 => {
                        shown = o == 2;
                        at(app.root.as_mut(), &[0], |l| Widget::set_visible(l, shown));
                    }
                    _ => {
                        class = o == 3;
                        at(app.root.as_mut(), &[0], |l| if class { l.add_class("x") } else { l.remove_class("x") });
                    }
                }
            }
            let c = app.draw();
            let text: String = (0..3).map(|y| c.row_str(y).trim_end().to_string() + "/").collect();
            let spin = if shown { SPIN[ticks % 10] } else { "" };
            let taken = text.contains('m');
            ensure!(taken, "the widget below is gone: {text:?}");
            ensure!(text.starts_with(spin) && text.trim_start_matches(spin).chars().all(|ch| "m/ ".contains(ch)), "the screen shows {text:?}, expected the frame {spin:?}");
            if shown {
                let fg = c.cell_at(0).fg;
                let want = if class { (0, 200, 0) } else { (200, 0, 0) };
                ensure!(near(fg, want), "the spinner is {fg:?}, expected {want:?}");
            }
            w.outcome(&text);
            w.state(&(ticks % 10, shown, class));
            Ok(())
        },
    );
}

fn c40(ctx: &Ctx) {
    placeholder_phase(ctx);
    auto_phase(ctx);
    header_phase(ctx);
    ruler_phase(ctx);
    spinner_phase(ctx);
}

fn main() {
    main_with(&[("C40", c40)]);
}
