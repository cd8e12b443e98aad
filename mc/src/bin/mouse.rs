//! C18 scrolling, C19 mouse routing, C38 scrollbars on the screen.
use mc::probe::*;
use crossterm::style::Color;
use mc::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use tcss::parser::parse_stylesheet;
use tcss::types::{RgbaColor, Theme};
use tcss::{ComputedStyle, WidgetMeta, WidgetStates};
use textual::scroll::ScrollState;
use textual::scrollbar::ScrollBarRender;
use textual::style_resolver::resolve_styles;
use textual::testing::build_combined_css;
use textual::tree::{clear_all_hover, WidgetTree};
use textual::widget::app_widget::AppWidget;
use textual::widget::screen::Screen;
use textual::widget::tooltip::Tooltip;
use textual::widget::Widget;
use textual::Label;
use textual::{Canvas, KeyCode, KeyModifiers, MouseButton, MouseEvent, MouseEventKind, Region, Size};

const W: u16 = 26;
const H: u16 = 10;

fn theme() -> &'static Theme {
    static THEME: std::sync::OnceLock<Theme> = std::sync::OnceLock::new();
    THEME.get_or_init(|| Theme::standard_themes().get("textual-dark").cloned().unwrap())
}

fn ev(kind: MouseEventKind, x: u16, y: u16) -> MouseEvent {
    MouseEvent { kind, column: x, row: y, modifiers: KeyModifiers::NONE }
}

fn paint(tree: &mut WidgetTree<Msg>, w: u16, h: u16) -> Canvas {
    let mut c = Canvas::new(w, h);
    tree.root().render(&mut c, Region::from_u16(0, 0, w, h));
    c
}

fn grow(root: W1, css: &str, w: u16, h: u16) -> WidgetTree<Msg> {
    let mut root = root;
    let sheet = parse_stylesheet(&build_combined_css(root.as_mut(), css)).expect("css");
    grow_with(root, &sheet, theme(), w, h)
}

fn grow_with(root: W1, sheet: &tcss::parser::stylesheet::StyleSheet, th: &Theme, w: u16, h: u16) -> WidgetTree<Msg> {
    let mut tree = WidgetTree::new(root);
    tree.root_mut().on_resize(Size::new(w, h));
    let mut anc = VecDeque::new();
    resolve_styles(tree.root_mut(), sheet, th, &mut anc);
    tree
}

// ---- C19 ----

const BOX: &[&str] = &[
    "",
    "border: solid white; padding: 1 2;",
    "overflow: auto; border: solid white;",
    "overflow: scroll; padding: 1 0 0 1; scrollbar-size: 1 2;",
    "layers: low high; align: center middle;",
    "grid-size: 2; grid-gutter: 1; border-left: thick white; layout: grid;",
    "layout: horizontal; margin: 1 2; align: right bottom;",
];

/// Styles of a, b, c, d, e.
const LEAF: &[[&str; 5]] = &[
    ["width: 8; height: 2;", "width: 5; height: 3;", "width: 6; height: 2;", "width: 7; height: 2;", "height: 1;"],
    ["width: 10vw; height: 20vh;", "width: 30%; height: 2;", "width: 1fr; height: 1fr;", "width: 2fr; height: 1fr;", "dock: bottom; height: 2;"],
    ["width: 40; height: 9;", "width: 9; height: 4; offset: 2 -1;", "width: 30; height: 6;", "width: 3; height: 8; margin: 1;", "dock: left; width: 3;"],
    ["layer: high; width: 6; height: 3;", "layer: low; width: 9; height: 4;", "layer: high; width: 5; height: 2;", "layer: low; width: 8; height: 3;", "dock: top; height: 1;"],
    ["dock: right; width: 4;", "width: 6; height: 2; margin: 1 2;", "dock: top; height: 1;", "height: 12; width: 100%;", "height: 9;"],
    ["position: absolute; offset: 3 1; width: 6; height: 3;", "width: 12; height: 2;", "width: 50w; height: 3;", "position: absolute; offset: 1 1; width: 4; height: 2;", "height: 8;"],
    ["display: none;", "width: 7; height: 5;", "column-span: 2; height: 2; width: 100%;", "display: none;", "offset: 4 -3; height: 2; width: 9;"],
];

const SIZE: &[(&str, &str)] = &[("height: 7;", "height: 5;"), ("height: 1fr;", "height: 1fr; width: 1fr;"), ("height: 14; width: 34;", "height: 8; width: 20;")];

#[derive(Clone, Copy, Debug)]
struct Shape {
    k1: &'static str,
    k2: &'static str,
    s1: usize,
    s2: usize,
    leaf: usize,
    size: usize,
    wrap: usize,
}

impl Shape {
    fn css(&self) -> String {
        let l = LEAF[self.leaf];
        let (z1, z2) = SIZE[self.size];
        // Later rules of equal specificity win: the size of the probe `e` docked to the screen is kept.
        format!(
            "Screen {{ layers: low high; }} #k1 {{ background: black; {z1} {} }} #k2 {{ background: black; {z2} {} }} #a {{ {} }} #b {{ {} }} #c {{ {} }} #d {{ {} }} #e {{ {} }}",
            BOX[self.s1], BOX[self.s2], l[0], l[1], l[2], l[3], l[4]
        )
    }
    fn build(&self, log: &Log) -> WidgetTree<Msg> {
        let p = |id: &str, g: char| Probe::new(log).id(id).size(6, 2).glyph(g).boxed();
        let wrap = |w: W1| match self.wrap {
            0 => w,
            1 => container("Center", "", vec![w]),
            _ => container("Middle", "", vec![w]),
        };
        let k2 = container(self.k2, "k2", vec![p("c", 'c'), wrap(p("d", 'd'))]);
        let k1 = container(self.k1, "k1", vec![p("a", 'a'), k2, p("b", 'b')]);
        let root = AppWidget::new(vec![Box::new(Screen::new(vec![k1, p("e", 'e')])) as W1, Box::new(Tooltip::<Msg>::new())]);
        grow(Box::new(root), &self.css(), W, H)
    }
}

fn hovered(w: &mut dyn Widget<Msg>, out: &mut Vec<String>) {
    if w.get_state().contains(WidgetStates::HOVER) {
        out.push(w.id().unwrap_or("-").to_string());
    }
    w.for_each_child(&mut |c| hovered(c, out));
}

/// Every cell of the screen, every kind of event that is not for a scrollbar.
fn route(tree: &mut WidgetTree<Msg>, log: &Log, w: &mut mc::W, when: &str) -> Result<BTreeSet<char>, String> {
    let screen = paint(tree, W, H);
    let region = Region::from_u16(0, 0, W, H);
    let mut seen = BTreeSet::new();
    for i in 0..W as usize * H as usize {
        let (x, y) = ((i % W as usize) as u16, (i / W as usize) as u16);
        let shown = screen.cell_at(i).symbol.chars().next().unwrap_or(' ');
        let owner = "abcde".contains(shown).then_some(shown);
        let kinds: &[MouseEventKind] = if owner.is_some() {
            &[
                MouseEventKind::Moved,
                MouseEventKind::Down(MouseButton::Left),
                MouseEventKind::Drag(MouseButton::Left),
                MouseEventKind::Up(MouseButton::Right),
            ]
        } else {
            &[MouseEventKind::Moved]
        };
        for k in kinds {
            w.step();
            log.borrow_mut().clear();
            if *k == MouseEventKind::Moved {
                clear_all_hover(tree.root_mut());
            }
            tree.root_mut().on_mouse_with_sender(ev(*k, x, y), region);
            let got: Vec<String> = log.borrow().iter().filter(|l| l.ends_with(":in")).cloned().collect();
            let want: Vec<String> = owner.iter().map(|c| format!("mouse:{c}:in")).collect();
            ensure!(got == want, "{when}: {k:?} at {x},{y} where {shown:?} is shown went to {got:?}, expected {want:?}\n{}", screen.to_snapshot());
            if *k == MouseEventKind::Moved {
                let mut h = vec![];
                hovered(tree.root_mut(), &mut h);
                let want: Vec<String> = owner.iter().map(|c| c.to_string()).collect();
                ensure!(h == want, "{when}: pointer at {x},{y} on {shown:?} hovers {h:?}\n{}", screen.to_snapshot());
            }
        }
        seen.extend(owner);
    }
    Ok(seen)
}

fn c19(ctx: &Ctx) {
    let mut shapes = vec![];
    let kinds = KINDS;
    for (i1, k1) in kinds.iter().enumerate() {
        for (i2, k2) in kinds.iter().enumerate() {
            for s1 in 0..BOX.len() {
                for s2 in 0..BOX.len() {
                    for leaf in 0..LEAF.len() {
                        for size in 0..SIZE.len() {
                            // Quick: one in seven, each pair of values of two dimensions still occurs.
                            if !ctx.thorough() && (s2 + i2) % 7 != (s1 + leaf + size * 3 + i1 * 2) % 7 {
                                continue;
                            }
                            shapes.push(Shape { k1, k2, s1, s2, leaf, size, wrap: if leaf == 3 || k2.contains("Grid") || s2 == 5 { 0 } else { (i1 + s2 + leaf) % 3 } });
                        }
                    }
                }
            }
        }
    }
    ctx.explore(
        "every cell of nested containers",
        shapes.len() as u64,
        |i| format!("{:?} {}", shapes[i as usize], shapes[i as usize].css()),
        |i, w| {
            let sh = shapes[i as usize];
            let log = new_log();
            let mut tree = sh.build(&log);
            let region = Region::from_u16(0, 0, W, H);
            let seen = route(&mut tree, &log, w, "at first")?;
            // Scroll whatever scrolls under two points, in both directions, then look again.
            for (n, (k, x, y)) in [
                (MouseEventKind::ScrollDown, 5, 3),
                (MouseEventKind::ScrollRight, 5, 3),
                (MouseEventKind::ScrollDown, 12, 4),
                (MouseEventKind::ScrollRight, 14, 5),
            ]
            .into_iter()
            .enumerate()
            {
                for _ in 0..2 {
                    tree.root_mut().on_mouse_with_sender(ev(k, x, y), region);
                }
                if n % 2 == 1 {
                    route(&mut tree, &log, w, "after scrolling")?;
                }
            }
            w.outcome(&seen);
            w.state(&format!("{sh:?}"));
            Ok(())
        },
    );
}

// ---- C18 ----

/// Content whose every cell shows where it comes from.
struct Sheet {
    size: Size,
    style: ComputedStyle,
    id: &'static str,
}

/// A private-use character (one column wide) for each cell.
fn code(x: i32, y: i32) -> char {
    char::from_u32(0xe000 + (y as u32 * 64 + x as u32)).unwrap()
}
fn decode(c: char) -> Option<(i32, i32)> {
    let v = c as u32;
    (0xe000..0xe000 + 64 * 64).contains(&v).then(|| (((v - 0xe000) % 64) as i32, ((v - 0xe000) / 64) as i32))
}

impl Widget<Msg> for Sheet {
    fn render(&self, canvas: &mut Canvas, r: Region) {
        for y in 0..r.height {
            for x in 0..r.width {
                canvas.put_char(r.x + x, r.y + y, code(x, y), None, None, Default::default());
            }
        }
    }
    fn desired_size(&self) -> Size {
        self.size
    }
    fn for_each_child(&mut self, _f: &mut dyn FnMut(&mut dyn Widget<Msg>)) {}
    fn get_meta(&self) -> WidgetMeta {
        WidgetMeta { type_name: "Sheet", type_names: vec!["Sheet", "Widget"], id: Some(self.id.into()), classes: vec![], states: WidgetStates::empty() }
    }
    fn set_style(&mut self, s: ComputedStyle) {
        self.style = s;
    }
    fn get_style(&self) -> ComputedStyle {
        self.style.clone()
    }
    fn is_dirty(&self) -> bool {
        true
    }
    fn mark_dirty(&mut self) {}
    fn mark_clean(&mut self) {}
    fn on_event(&mut self, _k: KeyCode) -> Option<Msg> {
        None
    }
    fn on_mouse(&mut self, _e: MouseEvent, _r: Region) -> Option<Msg> {
        None
    }
    fn id(&self) -> Option<&str> {
        Some(self.id)
    }
}

/// What is visible: screen cell -> content cell.
fn window(c: &Canvas) -> BTreeMap<(i32, i32), (i32, i32)> {
    let (w, h) = c.size();
    let mut m = BTreeMap::new();
    for i in 0..w as usize * h as usize {
        if let Some(p) = c.cell_at(i).symbol.chars().next().and_then(decode) {
            m.insert(((i % w as usize) as i32, (i / w as usize) as i32), p);
        }
    }
    m
}

/// The visible part of the content is a rectangle of it, without holes. Its origin and size.
fn rect(m: &BTreeMap<(i32, i32), (i32, i32)>, c: &Canvas) -> Result<((i32, i32), (i32, i32), (i32, i32)), String> {
    let (sx0, sy0) = (m.keys().map(|p| p.0).min().unwrap(), m.keys().map(|p| p.1).min().unwrap());
    let (sx1, sy1) = (m.keys().map(|p| p.0).max().unwrap(), m.keys().map(|p| p.1).max().unwrap());
    let o = *m.get(&(sx0, sy0)).ok_or_else(|| format!("hole at the origin\n{}", c.to_snapshot()))?;
    for y in sy0..=sy1 {
        for x in sx0..=sx1 {
            let want = (o.0 + x - sx0, o.1 + y - sy0);
            ensure!(m.get(&(x, y)) == Some(&want), "screen cell {x},{y} shows {:?}, expected content cell {want:?}", m.get(&(x, y)));
        }
    }
    Ok((o, (sx1 - sx0 + 1, sy1 - sy0 + 1), (sx0, sy0)))
}

fn scroller(kind: &str, kids: Vec<W1>) -> W1 {
    match kind {
        "Screen" => Box::new(Screen::new(kids)),
        k => {
            let inner = container(k, "s", kids);
            Box::new(Screen::new(vec![inner]))
        }
    }
}

const OVER: &[(&str, bool, bool)] = &[
    // css, x scrolls, y scrolls
    ("overflow: auto;", true, true),
    ("overflow: scroll;", true, true),
    ("overflow-x: hidden; overflow-y: auto;", false, true),
    ("overflow-x: auto; overflow-y: hidden;", true, false),
    ("overflow-x: scroll; overflow-y: auto;", true, true),
];
const CHROME: &[&str] = &["", "border: solid white;", "padding: 1;", "scrollbar-size: 1 1;", "scrollbar-gutter: stable;", "scrollbar-size: 2 3; border: solid white;", "scrollbar-visibility: hidden;"];

fn wheel(tree: &mut WidgetTree<Msg>, k: MouseEventKind, shift: bool, at: (i32, i32), w: u16, h: u16) {
    let mut e = ev(k, at.0 as u16, at.1 as u16);
    if shift {
        e.modifiers = KeyModifiers::SHIFT;
    }
    tree.root_mut().on_mouse_with_sender(e, Region::from_u16(0, 0, w, h));
}

fn reach(ctx: &Ctx) {
    let kinds = ["Screen", "Container", "ScrollableContainer", "VerticalScroll", "HorizontalScroll"];
    let sizes: Vec<(u16, u16)> = (3..=ctx.pick(22, 30)).flat_map(|x| (2..=ctx.pick(13, 20)).map(move |y| (x as u16, y as u16))).collect();
    let mut cases = vec![];
    for k in kinds {
        for o in 0..OVER.len() {
            for c in 0..CHROME.len() {
                for s in &sizes {
                    cases.push((k, o, c, *s));
                }
            }
        }
    }
    let (w0, h0) = (12u16, 7u16);
    ctx.explore(
        "every cell of the content can be reached",
        cases.len() as u64,
        |i| {
            let (k, o, c, s) = cases[i as usize];
            format!("{k} {} {} content {}x{}", OVER[o].0, CHROME[c], s.0, s.1)
        },
        |i, w| {
            let (kind, o, c, (cw, ch)) = cases[i as usize];
            let (over, mut xs, mut ys) = OVER[o];
            let sel = if kind == "Screen" { "Screen" } else { "#s" };
            let css = format!("{sel} {{ {over} {} }} #c {{ width: {cw}; height: {ch}; }}", CHROME[c]);
            let sheet = Sheet { size: Size::new(cw, ch), style: ComputedStyle::default(), id: "c" };
            let mut tree = grow(scroller(kind, vec![Box::new(sheet)]), &css, w0, h0);
            let canvas = paint(&mut tree, w0, h0);
            let m = window(&canvas);
            ensure!(!m.is_empty(), "nothing of the content is shown\n{}", canvas.to_snapshot());
            let (o0, view, origin) = rect(&m, &canvas)?;
            ensure!(o0 == (0, 0), "starts at {o0:?}");
            // Only ScrollableContainer and its kin have horizontal wheels of their own; a Container only scrolls vertically.
            if kind == "Container" {
                xs = false;
                let _ = &mut ys;
            }
            let mut seen: BTreeSet<(i32, i32)> = m.values().copied().collect();
            let mut last = o0;
            // All of the way down, then right along the bottom, then back up; rows at the left edge are seen on the way down.
            let legs: &[(MouseEventKind, bool)] = &[
                (MouseEventKind::ScrollDown, false),
                (MouseEventKind::ScrollRight, false),
                (MouseEventKind::ScrollUp, false),
                (MouseEventKind::ScrollLeft, false),
                (MouseEventKind::ScrollDown, true),
                (MouseEventKind::ScrollUp, true),
            ];
            let (max_x, max_y) = (if xs { (cw as i32 - view.0).max(0) } else { 0 }, if ys { (ch as i32 - view.1).max(0) } else { 0 });
            for (k, shift) in legs {
                let mut steps = 0;
                loop {
                    w.step();
                    wheel(&mut tree, *k, *shift, origin, w0, h0);
                    let canvas = paint(&mut tree, w0, h0);
                    let m = window(&canvas);
                    ensure!(!m.is_empty(), "nothing is shown after {k:?}\n{}", canvas.to_snapshot());
                    let (now, v, og) = rect(&m, &canvas)?;
                    ensure!(v == view && og == origin, "the window changed from {view:?} at {origin:?} to {v:?} at {og:?} after {k:?}");
                    ensure!(now.0 <= max_x && now.1 <= max_y, "scrolled to {now:?}, beyond {max_x},{max_y}");
                    seen.extend(m.values().copied());
                    let moved = (now.0 - last.0, now.1 - last.1);
                    use MouseEventKind::*;
                    let ok = match (k, shift) {
                        (ScrollDown, false) => moved.0 == 0 && moved.1 >= 0,
                        (ScrollUp, false) => moved.0 == 0 && moved.1 <= 0,
                        (ScrollRight, _) | (ScrollDown, true) => moved.1 == 0 && moved.0 >= 0,
                        _ => moved.1 == 0 && moved.0 <= 0,
                    };
                    ensure!(ok || kind == "Container", "{k:?} shift {shift} moved the content by {moved:?}");
                    last = now;
                    if moved == (0, 0) {
                        break;
                    }
                    steps += 1;
                    ensure!(steps < 100, "{k:?} never stops");
                }
                let end = match (k, shift) {
                    (MouseEventKind::ScrollDown, false) => (last.0, max_y),
                    (MouseEventKind::ScrollUp, false) => (last.0, 0),
                    (MouseEventKind::ScrollRight, _) | (MouseEventKind::ScrollDown, true) => (max_x, last.1),
                    _ => (0, last.1),
                };
                ensure!(last == end || kind == "Container", "{k:?} shift {shift} stopped at {last:?}, not {end:?} (content {cw}x{ch}, window {view:?})");
            }
            let want_w = if xs { cw as i32 } else { view.0.min(cw as i32) };
            let want_h = if ys { ch as i32 } else { view.1.min(ch as i32) };
            for y in 0..want_h {
                for x in 0..want_w {
                    // Reached somewhere along the legs: the left edge, the bottom edge, the top edge or the right edge.
                    let on_path = x < view.0 || y >= max_y || y < view.1 || x >= max_x;
                    ensure!(!on_path || seen.contains(&(x, y)) || (kind == "Container" && x >= view.0), "content cell {x},{y} of {cw}x{ch} was never shown");
                }
            }
            w.outcome(&(view, max_x, max_y));
            w.state(&(kind, o, c, cw, ch));
            Ok(())
        },
    );
}

#[derive(Clone, Copy, Debug)]
enum SOp {
    Up(i32),
    Down(i32),
    Left(i32),
    Right(i32),
    To(Option<f32>, Option<f32>),
    View(i32, i32),
    Virt(i32, i32),
}

fn state(ctx: &Ctx) {
    let mut ops = vec![];
    for a in [0, 1, 3, 100] {
        ops.extend([SOp::Up(a), SOp::Down(a), SOp::Left(a), SOp::Right(a)]);
    }
    for v in [-5.0, 0.0, 0.5, 2.9, 7.0, 1e9] {
        ops.extend([SOp::To(Some(v), None), SOp::To(None, Some(v)), SOp::To(Some(v), Some(2.0))]);
    }
    for (a, b) in [(0, 0), (4, 3), (10, 10), (30, 2)] {
        ops.extend([SOp::View(a, b), SOp::Virt(a, b), SOp::Virt(b * 3, a)]);
    }
    let n = ops.len() as u64;
    let depth = ctx.pick(4, 5) as u32;
    ctx.explore(
        "scroll offsets stay within bounds",
        n.pow(depth),
        |i| {
            let mut x = Mix(i);
            format!("{:?}", (0..depth).map(|_| ops[x.pick(n) as usize]).collect::<Vec<_>>())
        },
        |i, w| {
            let mut x = Mix(i);
            let mut s = ScrollState::new(20, 15, 8, 4);
            for _ in 0..depth {
                w.step();
                let op = ops[x.pick(n) as usize];
                let b = (s.offset_x, s.offset_y);
                let max = ((s.virtual_width - s.viewport_width).max(0), (s.virtual_height - s.viewport_height).max(0));
                let want = match op {
                    SOp::Up(a) => {
                        s.scroll_up(a);
                        Some((b.0, (b.1 - a).clamp(0, max.1)))
                    }
                    SOp::Down(a) => {
                        s.scroll_down(a);
                        Some((b.0, (b.1 + a).clamp(0, max.1)))
                    }
                    SOp::Left(a) => {
                        s.scroll_left(a);
                        Some(((b.0 - a).clamp(0, max.0), b.1))
                    }
                    SOp::Right(a) => {
                        s.scroll_right(a);
                        Some(((b.0 + a).clamp(0, max.0), b.1))
                    }
                    SOp::To(a, c) => {
                        s.scroll_to(a, c);
                        let f = |v: Option<f32>, old: i32, m: i32| v.map_or(old, |v| (v.floor() as i32).clamp(0, m));
                        Some((f(a, b.0, max.0), f(c, b.1, max.1)))
                    }
                    SOp::View(a, c) => {
                        s.set_viewport(a, c);
                        None
                    }
                    SOp::Virt(a, c) => {
                        s.set_virtual_size(a, c);
                        None
                    }
                };
                let max = ((s.virtual_width - s.viewport_width).max(0), (s.virtual_height - s.viewport_height).max(0));
                let want = want.unwrap_or((b.0.min(max.0), b.1.min(max.1)));
                let now = (s.offset_x, s.offset_y);
                ensure!(now == want, "{op:?} went from {b:?} to {now:?}, expected {want:?} ({s:?})");
                ensure!(now.0 >= 0 && now.0 <= max.0 && now.1 >= 0 && now.1 <= max.1, "offset {now:?} outside 0..={max:?}");
                ensure!((s.max_scroll_x(), s.max_scroll_y()) == max, "max {:?}", (s.max_scroll_x(), s.max_scroll_y()));
                ensure!(s.can_scroll_x() == (max.0 > 0) && s.can_scroll_y() == (max.1 > 0), "can_scroll");
                for (p, o, m) in [(s.scroll_percent_x(), now.0, max.0), (s.scroll_percent_y(), now.1, max.1)] {
                    ensure!((0.0..=1.0).contains(&p), "percentage {p}");
                    ensure!((o == 0) == (p == 0.0) && (m == 0 || (o == m) == (p == 1.0)), "percentage {p} at {o} of {m}");
                }
                w.state(&(now, s.virtual_width, s.virtual_height, s.viewport_width, s.viewport_height));
            }
            Ok(())
        },
    );
}

/// The cells of a scrollbar that show its thumb (whole or in part).
fn thumb_cells(vertical: bool, track: i32, virt: i32, win: i32, pos: i32) -> Vec<bool> {
    let (w, h) = if vertical { (1, track) } else { (track, 1) };
    let mut c = Canvas::new(w as u16 + 2, h as u16 + 2);
    let thumb = RgbaColor::rgb(200, 0, 0);
    let bar = RgbaColor::rgb(0, 0, 200);
    let r = Region::new(1, 1, w, h);
    let f = if vertical { ScrollBarRender::render_vertical } else { ScrollBarRender::render_horizontal };
    f(&mut c, r, virt as f32, win as f32, pos as f32, thumb.clone(), bar, true);
    (0..track)
        .map(|i| {
            let (x, y) = if vertical { (1, 1 + i) } else { (1 + i, 1) };
            let cell = c.cell_at(y as usize * (w as usize + 2) + x as usize);
            let red = Some(Color::Rgb { r: 200, g: 0, b: 0 });
            cell.bg == red || (cell.symbol != " " && cell.fg == red)
        })
        .collect()
}

fn thumb(ctx: &Ctx) {
    let (t, v) = (ctx.pick(14, 24) as i32, ctx.pick(60, 120) as i32);
    let mut cases = vec![];
    for track in 1..=t {
        for virt in 1..=v {
            for win in 1..=t {
                cases.push((track, virt, win));
            }
        }
    }
    ctx.explore(
        "the thumb shows where the window is",
        cases.len() as u64,
        |i| format!("track, content, window = {:?}", cases[i as usize]),
        |i, w| {
            let (track, virt, win) = cases[i as usize];
            let max = (virt - win).max(0);
            let mut last = (0, 0);
            for pos in 0..=max {
                w.step();
                let (a, b) = ScrollBarRender::thumb_bounds(track, virt as f32, win as f32, pos as f32);
                if max > 0 && virt != track {
                    ensure!(0 <= a && a < b && b <= track, "thumb {a}..{b} of a track of {track} at {pos} of {max}");
                    ensure!(pos > 0 || a == 0, "thumb starts at {a} when at the top");
                    ensure!(pos < max || b == track, "thumb ends at {b} of {track} when at the bottom");
                    ensure!(pos == 0 || (a, b) >= last, "thumb moved back from {last:?} to {:?}", (a, b));
                    last = (a, b);
                }
                for vertical in [true, false] {
                    let cells = thumb_cells(vertical, track, virt, win, pos);
                    let shown: Vec<i32> = (0..track).filter(|i| cells[*i as usize]).collect();
                    if max > 0 && virt != track {
                        ensure!(!shown.is_empty(), "no thumb is drawn at {pos} of {max} (vertical {vertical})");
                        ensure!(shown.len() as i32 == shown[shown.len() - 1] - shown[0] + 1, "the thumb has holes: {shown:?}");
                        ensure!(pos > 0 || shown[0] == 0, "drawn from {} at the top (vertical {vertical})", shown[0]);
                        ensure!(pos < max || shown[shown.len() - 1] == track - 1, "drawn to {} of {track} at the bottom (vertical {vertical})", shown[shown.len() - 1]);
                        ensure!((shown[0] - a).abs() <= 1 && (shown[shown.len() - 1] + 1 - b).abs() <= 1, "drawn {shown:?}, grabbed at {a}..{b} (vertical {vertical})");
                    }
                    w.outcome(&shown);
                }
            }
            w.state(&(track, virt, win));
            Ok(())
        },
    );
}

/// The scrollbar under the mouse: clicks, drags and keys.
fn bars(ctx: &Ctx) {
    let kinds = ["Screen", "ScrollableContainer", "VerticalScroll", "HorizontalScroll"];
    let n = ctx.pick(26, 40) as u16;
    let mut cases = vec![];
    for k in kinds {
        for vertical in [true, false] {
            for border in [false, true] {
                for h in 1..=ctx.pick(8, 12) as u16 {
                    for c in h..=n {
                        cases.push((k, vertical, border, h, c));
                    }
                }
            }
        }
    }
    ctx.explore(
        "scrollbar clicks, drags and keys",
        cases.len() as u64,
        |i| format!("kind, vertical, border, window, content = {:?}", cases[i as usize]),
        |i, w| {
            let (kind, vertical, border, win, content) = cases[i as usize];
            let (cw, ch) = if vertical { (2, content) } else { (content, 2) };
            let b = if border { 1 } else { 0 };
            // One more row or column for the bar.
            let (w0, h0) = if vertical { (6 + 2 * b, win + 2 * b) } else { (win + 2 * b, 6 + 2 * b) };
            let sel = if kind == "Screen" { "Screen" } else { "#s" };
            let css = format!(
                "{sel} {{ overflow: auto; scrollbar-size: 1 1; {} }} #c {{ width: {cw}; height: {ch}; }}",
                if border { "border: solid white;" } else { "" }
            );
            let make = || {
                let sheet = Sheet { size: Size::new(cw, ch), style: ComputedStyle::default(), id: "c" };
                grow(scroller(kind, vec![Box::new(sheet)]), &css, w0, h0)
            };
            let region = Region::from_u16(0, 0, w0, h0);
            let off = |t: &mut WidgetTree<Msg>| -> Result<i32, String> {
                let c = paint(t, w0, h0);
                let m = window(&c);
                ensure!(!m.is_empty(), "nothing is shown\n{}", c.to_snapshot());
                let o = rect(&m, &c)?.0;
                Ok(if vertical { o.1 } else { o.0 })
            };
            let max = content as i32 - win as i32;
            let cell = |p: i32| if vertical { (w0 - 1 - b, (p + b as i32) as u16) } else { ((p + b as i32) as u16, h0 - 1 - b) };
            let send = |t: &mut WidgetTree<Msg>, k: MouseEventKind, p: i32| {
                let (x, y) = cell(p);
                t.root_mut().on_mouse_with_sender(ev(k, x, y), region);
            };
            let (down, drag, up) = (MouseEventKind::Down(MouseButton::Left), MouseEventKind::Drag(MouseButton::Left), MouseEventKind::Up(MouseButton::Left));
            // Every cell of the bar at three scroll positions (start, one page, end).
            for start in 0..3 {
                for p in 0..win as i32 {
                    let mut t = make();
                    off(&mut t)?;
                    if max == 0 {
                        continue;
                    }
                    let last = win as i32 - 1;
                    if start >= 1 {
                        send(&mut t, down, last);
                        send(&mut t, up, last);
                    }
                    if start == 2 {
                        for _ in 0..60 {
                            send(&mut t, if vertical { MouseEventKind::ScrollDown } else { MouseEventKind::ScrollRight }, 0);
                        }
                    }
                    let at = off(&mut t)?;
                    ensure!(start != 2 || at == max, "the wheel over the bar ended at {at} of {max}");
                    let (a, z) = ScrollBarRender::thumb_bounds(win as i32, content as f32, win as f32, at as f32);
                    w.step();
                    send(&mut t, down, p);
                    let now = off(&mut t)?;
                    if p < a {
                        ensure!(now < at, "a click above the thumb scrolled from {at} to {now}");
                    } else if p >= z {
                        ensure!(now > at, "a click below the thumb scrolled from {at} to {now}");
                    } else {
                        ensure!(now == at, "grabbing the thumb scrolled from {at} to {now}");
                        // Drag over the whole track.
                        let mut prev = None;
                        for q in 0..win as i32 {
                            w.step();
                            send(&mut t, drag, q);
                            let o = off(&mut t)?;
                            ensure!((0..=max).contains(&o), "dragged to {o}, outside 0..={max}");
                            ensure!(prev.map_or(true, |x| o >= x), "dragging down from {prev:?} scrolled to {o}");
                            prev = Some(o);
                        }
                        // A thumb that fills the track cannot be dragged to its end.
                        ensure!(z - a == win as i32 || prev == Some(max), "dragging the thumb to the end of the track scrolled to {prev:?} of {max}");
                        send(&mut t, drag, 0);
                        let o = off(&mut t)?;
                        ensure!(z - a == win as i32 || o == 0, "dragging the thumb to the start of the track scrolled to {o}");
                    }
                    let before = off(&mut t)?;
                    send(&mut t, up, p);
                    for q in 0..win as i32 {
                        send(&mut t, MouseEventKind::Moved, q);
                        send(&mut t, drag, q);
                    }
                    ensure!(off(&mut t)? == before, "moving the mouse after the release scrolled from {before} to {}", off(&mut t)?);
                    // Released elsewhere: the app tells every widget.
                    send(&mut t, down, p);
                    textual::tree::clear_all_active(t.root_mut());
                    let before = off(&mut t)?;
                    for q in 0..win as i32 {
                        send(&mut t, MouseEventKind::Moved, q);
                    }
                    ensure!(off(&mut t)? == before, "moving the mouse after a release elsewhere scrolled from {before} to {}", off(&mut t)?);
                }
            }
            // Keys of the scrolling containers.
            if kind != "Screen" {
                let mut t = make();
                off(&mut t)?;
                let path: &[usize] = &[0];
                let key = |t: &mut WidgetTree<Msg>, k: KeyCode| -> Result<i32, String> {
                    at(t.root_mut(), path, |s| s.on_event(k));
                    off(t)
                };
                let (fwd, back) = if vertical { (KeyCode::Down, KeyCode::Up) } else { (KeyCode::Right, KeyCode::Left) };
                for want in 1..=max {
                    let o = key(&mut t, fwd)?;
                    ensure!(o == want, "{fwd:?} scrolled to {o}, expected {want}");
                }
                ensure!(key(&mut t, fwd)? == max, "{fwd:?} scrolled beyond the end");
                for want in (0..max).rev() {
                    let o = key(&mut t, back)?;
                    ensure!(o == want, "{back:?} scrolled to {o}, expected {want}");
                }
                ensure!(key(&mut t, back)? == 0, "{back:?} scrolled beyond the start");
                ensure!(key(&mut t, KeyCode::End)? == max, "End scrolled to {}", off(&mut t)?);
                ensure!(key(&mut t, KeyCode::Home)? == 0, "Home scrolled to {}", off(&mut t)?);
                if vertical {
                    let mut o = 0;
                    while o < max {
                        let n = key(&mut t, KeyCode::PageDown)?;
                        ensure!(n > o && n - o <= win as i32, "PageDown scrolled from {o} to {n} in a window of {win}");
                        o = n;
                    }
                    while o > 0 {
                        let n = key(&mut t, KeyCode::PageUp)?;
                        ensure!(n < o && o - n <= win as i32, "PageUp scrolled from {o} to {n} in a window of {win}");
                        o = n;
                    }
                }
            }
            w.state(&(kind, vertical, border, win, content));
            w.outcome(&max);
            Ok(())
        },
    );
}

/// A child among others: each of its cells shows which child and which of its cells it is.
struct Marked {
    n: i32,
    id: &'static str,
    size: Size,
    style: ComputedStyle,
    /// The size it was last given.
    given: std::sync::Arc<std::sync::Mutex<Vec<(i32, i32)>>>,
}

impl Widget<Msg> for Marked {
    fn render(&self, canvas: &mut Canvas, r: Region) {
        self.given.lock().unwrap()[self.n as usize] = (r.width, r.height);
        for y in 0..r.height.min(63) {
            for x in 0..r.width.min(63) {
                let c = if self.n < 0 { (x, y) } else { (x.min(15) + 16 * self.n, y) };
                canvas.put_char(r.x + x, r.y + y, code(c.0, c.1), None, None, Default::default());
            }
        }
    }
    fn desired_size(&self) -> Size {
        // Like the widgets of the library: a relative size asks for all there is.
        let of = |s: &Option<tcss::types::Scalar>, own: u16| match s {
            Some(s) if s.unit == tcss::types::Unit::Cells => s.value as u16,
            Some(s) if s.unit != tcss::types::Unit::Auto => u16::MAX,
            _ => own,
        };
        Size::new(of(&self.style.width, self.size.width), of(&self.style.height, self.size.height))
    }
    fn for_each_child(&mut self, _f: &mut dyn FnMut(&mut dyn Widget<Msg>)) {}
    fn get_meta(&self) -> WidgetMeta {
        WidgetMeta { type_name: "Marked", type_names: vec!["Marked", "Widget"], id: Some(self.id.into()), classes: vec![], states: WidgetStates::empty() }
    }
    fn set_style(&mut self, s: ComputedStyle) {
        self.style = s;
    }
    fn get_style(&self) -> ComputedStyle {
        self.style.clone()
    }
    fn is_dirty(&self) -> bool {
        true
    }
    fn mark_dirty(&mut self) {}
    fn mark_clean(&mut self) {}
    fn on_event(&mut self, _k: KeyCode) -> Option<Msg> {
        None
    }
    fn on_mouse(&mut self, _e: MouseEvent, _r: Region) -> Option<Msg> {
        None
    }
    fn id(&self) -> Option<&str> {
        Some(self.id)
    }
}

/// Lengths of a child along the scrolled axis, and its margins before and after it.
const LENGTHS: &[&str] = &["3", "50%", "1fr", "130%", "60vh", "60vw", "2fr", "35%", "auto"];
const ALONG: &[(i32, i32)] = &[(0, 0), (1, 2), (3, 0)];

/// Several children, of every kind of length, one after the other: all of each can be brought into view.
fn reach_all(ctx: &Ctx) {
    let hosts: &[(&str, bool)] = &[("Screen", true), ("Container", true), ("ScrollableContainer", true), ("VerticalScroll", true), ("ScrollableContainer", false), ("HorizontalScroll", false)];
    let nests: &[&str] = &["", "Container", "Vertical", "Horizontal"];
    let len = ctx.pick(2, 3);
    let per = (LENGTHS.len() * ALONG.len()) as u64;
    let lists = seq_count(per, len);
    let total = lists * (hosts.len() * nests.len() * 2) as u64;
    let (w0, h0) = (14u16, 9u16);
    let dec = |i: u64| {
        let mut m = Mix(i);
        let host = *m.of(hosts);
        let nest = *m.of(nests);
        let chrome = m.pick(2) == 1;
        let kids: Vec<(usize, usize)> = seq_at(m.0, per, len).iter().map(|k| (k / ALONG.len(), k % ALONG.len())).collect();
        (host, nest, chrome, kids)
    };
    ctx.explore(
        "every cell of several children can be reached",
        total,
        |i| {
            let ((h, v), nest, chrome, kids) = dec(i);
            format!("{h} {} {nest} chrome {chrome} {:?}", if v { "down" } else { "across" }, kids.iter().map(|k| (LENGTHS[k.0], ALONG[k.1])).collect::<Vec<_>>())
        },
        |i, w| {
            let ((host, vertical), nest, chrome, kids) = dec(i);
            if (vertical && nest == "Horizontal") || (!vertical && (nest == "Vertical" || nest == "Container")) { return Ok(()) }
            let given = std::sync::Arc::new(std::sync::Mutex::new(vec![(0, 0); 3]));
            const IDS: [&str; 3] = ["a", "b", "c"];
            let mut css = String::new();
            let mut boxes: Vec<W1> = vec![];
            for (n, k) in kids.iter().enumerate() {
                let (b, a) = ALONG[k.1];
                let (along, across, m) = if vertical { ("height", "width", format!("{b} 0 {a} 0")) } else { ("width", "height", format!("0 {a} 0 {b}")) };
                css += &format!("#{} {{ {along}: {}; {across}: 100%; margin: {m}; }}", IDS[n], LENGTHS[k.0]);
                boxes.push(Box::new(Marked { n: n as i32, id: IDS[n], size: Size::new(4, 4), style: ComputedStyle::default(), given: given.clone() }));
            }
            if !nest.is_empty() {
                boxes = vec![container(nest, "n", boxes)];
                css += if vertical { "#n { height: auto; width: 100%; }" } else { "#n { width: auto; height: 100%; }" };
            }
            let sel = if host == "Screen" { "Screen" } else { "#s" };
            let (over, lay) = if vertical { ("overflow-x: hidden; overflow-y: auto;", "layout: vertical;") } else { ("overflow-x: auto; overflow-y: hidden;", "layout: horizontal;") };
            css += &format!("{sel} {{ {over} {lay} {} }}", if chrome { "border: solid white; padding: 1;" } else { "" });
            let mut tree = grow(scroller(host, boxes), &css, w0, h0);
            let mut seen: BTreeSet<(usize, i32)> = BTreeSet::new();
            let mut last = None;
            let mut steps = 0;
            loop {
                w.step();
                let canvas = paint(&mut tree, w0, h0);
                let now = window(&canvas);
                for c in now.values() {
                    seen.insert(((c.0 / 16) as usize, if vertical { c.1 } else { c.0 % 16 }));
                }
                if last.as_ref() == Some(&now) && !now.is_empty() || steps > 60 { break }
                steps += 1;
                last = Some(now);
                wheel(&mut tree, if vertical { MouseEventKind::ScrollDown } else { MouseEventKind::ScrollRight }, false, (5, 4), w0, h0);
            }
            let sizes = given.lock().unwrap().clone();
            for n in 0..kids.len() {
                let len = if vertical { sizes[n].1 } else { sizes[n].0.min(16) };
                let across = if vertical { sizes[n].0 } else { sizes[n].1 };
                if across <= 0 { continue }
                // A relative length within a box that is as long as what it holds has no length of its own to be
                // relative to; it must not grow without bounds.
                if !nest.is_empty() && kids.iter().any(|k| !matches!(LENGTHS[k.0], "3" | "auto")) {
                    let most = if vertical { sizes[n].1 } else { sizes[n].0 };
                    ensure!(most <= 3 * w0 as i32, "child {n} is {most} long ({css})");
                    continue;
                }
                let missing: Vec<i32> = (0..len).filter(|y| !seen.contains(&(n, *y))).collect();
                ensure!(missing.is_empty(), "{} of child {n}, {len} long, never shown: {missing:?} ({css})\n{}", if vertical { "rows" } else { "columns" }, paint(&mut tree, w0, h0).to_snapshot());
            }
            w.outcome(&sizes);
            w.state(&(i, steps));
            Ok(())
        },
    );
}

fn c18(ctx: &Ctx) {
    reach_all(ctx);
    bars(ctx);
    state(ctx);
    thumb(ctx);
    reach(ctx);
}

// ---- C38 ----

/// Colours of one setting: the declarations, and thumb and track at rest, under the mouse and dragged.
struct Palette {
    css: &'static str,
    thumb: [Option<(u8, u8, u8)>; 3],
    track: [(u8, u8, u8); 3],
    corner: (u8, u8, u8),
}

/// The screen behind everything is rgb(0, 0, 20).
const PALETTES: &[Palette] = &[
    Palette {
        css: "scrollbar-color: #c80001; scrollbar-color-hover: #c80002; scrollbar-color-active: #c80003; scrollbar-background: #006401; scrollbar-background-hover: #006402; scrollbar-background-active: #006403; scrollbar-corner-color: #c8c809;",
        thumb: [Some((200, 0, 1)), Some((200, 0, 2)), Some((200, 0, 3))],
        track: [(0, 100, 1), (0, 100, 2), (0, 100, 3)],
        corner: (200, 200, 9),
    },
    // Half transparent: the track over what is behind the container, the thumb over the track.
    Palette {
        css: "scrollbar-color: rgba(200, 0, 10, 0.5); scrollbar-color-hover: #c80002; scrollbar-color-active: rgba(100, 0, 30, 0.5); scrollbar-background: rgba(0, 100, 0, 0.5); scrollbar-background-hover: rgba(0, 200, 20, 0.5); scrollbar-background-active: #006403; scrollbar-corner-color: #c8c809;",
        thumb: [Some((100, 25, 10)), Some((200, 0, 2)), Some((50, 50, 16))],
        track: [(0, 50, 10), (0, 100, 20), (0, 100, 3)],
        corner: (200, 200, 9),
    },
    // No thumb at rest, one under the mouse.
    Palette {
        css: "scrollbar-color: transparent; scrollbar-color-hover: #c80002; scrollbar-color-active: #c80003; scrollbar-background: #006401; scrollbar-background-hover: #006402; scrollbar-background-active: #006403; scrollbar-corner-color: #c8c809;",
        thumb: [None, Some((200, 0, 2)), Some((200, 0, 3))],
        track: [(0, 100, 1), (0, 100, 2), (0, 100, 3)],
        corner: (200, 200, 9),
    },
    // Colours not set: a dragged bar looks as under the mouse, a bar under the mouse as at rest.
    Palette {
        css: "scrollbar-color: #c80001; scrollbar-color-hover: #c80002; scrollbar-background: #006401; scrollbar-background-hover: #006402; scrollbar-corner-color: #c8c809;",
        thumb: [Some((200, 0, 1)), Some((200, 0, 2)), Some((200, 0, 2))],
        track: [(0, 100, 1), (0, 100, 2), (0, 100, 2)],
        corner: (200, 200, 9),
    },
    Palette {
        css: "scrollbar-color: #c80001; scrollbar-color-active: #c80003; scrollbar-background: #006401; scrollbar-corner-color: #c8c809;",
        thumb: [Some((200, 0, 1)), Some((200, 0, 1)), Some((200, 0, 3))],
        track: [(0, 100, 1), (0, 100, 1), (0, 100, 1)],
        corner: (200, 200, 9),
    },
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum BOp {
    Wheel(bool),
    /// The pointer moves onto the bar (vertical?), or onto the content.
    On(bool),
    Off,
    /// The pointer moves out of the container.
    Away,
    /// Press the first cell of the thumb, or the last cell of the track.
    Grab(bool),
    Page(bool),
    /// Drag to this share (in quarters) of the track.
    Drag(u8),
    Release,
}

/// A bar's pixels: eight per cell, along its length. `true` is thumb.
fn eighths(c: &Canvas, cells: &[(i32, i32)], vertical: bool, thumb: Option<(u8, u8, u8)>, track: (u8, u8, u8)) -> Result<Vec<bool>, String> {
    let rgb = |c: Option<Color>| match c {
        Some(Color::Rgb { r, g, b }) => Some((r, g, b)),
        _ => None,
    };
    let mut out = vec![];
    for (x, y) in cells {
        let cell = c.cell_at(*y as usize * c.size().0 as usize + *x as usize);
        let what = |k: Option<(u8, u8, u8)>, of: &str| {
            if k == Some(track) {
                Ok(false)
            } else if thumb.is_some() && k == thumb {
                Ok(true)
            } else {
                Err(format!("the {of} at {x},{y} of a bar is {k:?}, expected thumb {thumb:?} or track {track:?}: {cell:?}"))
            }
        };
        let bg = what(rgb(cell.bg), "background")?;
        let ch = cell.symbol.chars().next().unwrap_or(' ');
        // How many eighths the glyph covers, from the bottom or from the left.
        let n = if vertical { "▁▂▃▄▅▆▇".chars().position(|k| k == ch) } else { "▏▎▍▌▋▊▉".chars().position(|k| k == ch) };
        match n {
            Some(n) => {
                let fg = what(rgb(cell.fg), "foreground")?;
                let (a, b, first) = if vertical { (bg, fg, 7 - n) } else { (fg, bg, n + 1) };
                out.extend((0..8).map(|k| if k < first { a } else { b }));
            }
            None => {
                ensure!(ch == ' ', "a bar shows {ch:?} at {x},{y}");
                out.extend([bg; 8]);
            }
        }
    }
    Ok(out)
}

struct Bar {
    vertical: bool,
    cells: Vec<Vec<(i32, i32)>>,
    track: i32,
    virt: i32,
    win: i32,
}

impl Bar {
    /// The bar on the screen shows this position, in these colours.
    fn check(&self, c: &Canvas, pos: i32, thumb: Option<(u8, u8, u8)>, track: (u8, u8, u8)) -> Result<Vec<bool>, String> {
        let mut all = None;
        for line in &self.cells {
            let e = eighths(c, line, self.vertical, thumb, track)?;
            ensure!(all.is_none() || all.as_ref() == Some(&e), "the bar is not the same across its thickness");
            all = Some(e);
        }
        let e = all.unwrap_or_default();
        let on: Vec<usize> = (0..e.len()).filter(|i| e[*i]).collect();
        let side = if self.vertical { "vertical" } else { "horizontal" };
        if thumb.is_none() || self.virt <= self.win || self.win <= 0 {
            ensure!(on.is_empty(), "the {side} bar has a thumb {on:?} with nothing to scroll ({} in {})", self.virt, self.win);
            return Ok(e);
        }
        if self.track <= 0 {
            return Ok(e);
        }
        ensure!(!on.is_empty(), "the {side} bar has no thumb at {pos} of {} in {}", self.virt, self.win);
        let (a, b) = (on[0] as i32, *on.last().unwrap() as i32 + 1);
        ensure!(on.len() as i32 == b - a, "the thumb of the {side} bar has holes");
        let t = self.track as f64;
        let size = (self.win as f64 * t / self.virt as f64).max(1.0);
        let start = (t - size).max(0.0) * pos as f64 / (self.virt - self.win) as f64;
        let (s, f) = (start * 8.0, ((start + size) * 8.0).min(t * 8.0));
        ensure!(
            (a as f64 - s).abs() <= 1.01 && (b as f64 - f).abs() <= 2.01 && (b - a) as f64 <= (size * 8.0).ceil() + 0.01,
            "at {pos} of {} in {} the thumb of the {side} bar covers eighths {a}..{b} of {}, expected {s:.2}..{f:.2}",
            self.virt,
            self.win,
            self.track * 8
        );
        ensure!(pos > 0 || a == 0, "the thumb starts at {a} at the start");
        ensure!(pos < self.virt - self.win || b == self.track * 8, "the thumb ends at eighth {b} of {} at the end", self.track * 8);
        Ok(e)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum WOp {
    /// The pointer moves onto this cell of the bar, or off the bar.
    On(i32),
    Off,
    Press(i32),
    Drag(i32),
    /// Released on this cell, or off the bar.
    Release(i32),
    Away,
    Wheel(bool),
}

/// The scrollbar as a widget of its own, in the hands of an application that does what it is told.
fn bar_widget(ctx: &Ctx) {
    use textual::widget::scrollbar::ScrollBar;
    use textual::ScrollMessage;
    let depth = ctx.pick(4, 5) as usize;
    // Track, thickness, content, window.
    let shapes: &[(i32, i32, i32, i32)] = &[(6, 1, 30, 6), (4, 2, 7, 4), (7, 1, 100, 10), (5, 1, 5, 5), (5, 2, 3, 5), (1, 1, 9, 1), (6, 1, 6, 4), (6, 1, 60, 1)];
    ctx.explore(
        "scrollbar widget",
        (shapes.len() * 2 * PALETTES.len()) as u64,
        |i| {
            let mut m = Mix(i);
            let s = m.of(shapes);
            format!("{s:?} vertical {} palette {}", m.pick(2) == 1, m.pick(PALETTES.len() as u64))
        },
        |i, w| {
            let mut m = Mix(i);
            let (track, thick, virt, win) = *m.of(shapes);
            let vertical = m.pick(2) == 1;
            let pal = &PALETTES[m.pick(PALETTES.len() as u64)];
            let (at, size) = ((2, 1), if vertical { (thick, track) } else { (track, thick) });
            let region = Region { x: at.0, y: at.1, width: size.0, height: size.1 };
            let cell = |q: i32| if vertical { (at.0, at.1 + q) } else { (at.0 + q, at.1) };
            let bar = Bar { vertical, cells: (0..thick).map(|d| (0..track).map(|q| if vertical { (at.0 + d, at.1 + q) } else { (at.0 + q, at.1 + d) }).collect()).collect(), track, virt, win };
            let cells: BTreeSet<(i32, i32)> = bar.cells.iter().flatten().copied().collect();
            let sheet = parse_stylesheet(&format!("ScrollBar {{ {} }}", pal.css)).map_err(|e| format!("{e:?}"))?;
            let meta = WidgetMeta { type_name: "ScrollBar", ..Default::default() };
            let mut style = tcss::parser::cascade::compute_style(&meta, &[], &sheet, theme());
            style.inherited_background = Some(RgbaColor::rgb(0, 0, 20));
            let mut alpha = vec![WOp::Off, WOp::Away, WOp::Wheel(true), WOp::Wheel(false)];
            for q in [0, track / 2, track - 1] {
                for op in [WOp::On(q), WOp::Press(q), WOp::Drag(q), WOp::Release(q)] {
                    if !alpha.contains(&op) {
                        alpha.push(op);
                    }
                }
            }
            let far = (virt - win).max(0) as f32;
            for len in 0..=depth {
                if len < depth && len > 0 {
                    continue;
                }
                for n in 0..(alpha.len() as u64).pow(len as u32) {
                    let mut d = Mix(n);
                    let ops: Vec<WOp> = (0..len).map(|_| *d.of(&alpha)).collect();
                    let mut b = ScrollBar::new(vertical, |m: ScrollMessage| m).with_thickness(thick as u16);
                    b.set_style(style.clone());
                    let mut pos = 0f32;
                    b.update(virt as f32, win as f32, pos);
                    b.mark_clean();
                    let (mut hover, mut grab): (bool, Option<i32>) = (false, None);
                    // Drawn again after the last operation only: shorter sequences are prefixes of others.
                    for (step, op) in ops.iter().enumerate() {
                        w.step();
                        let err = |e: String| format!("{:?}: {e}", &ops[..=step]);
                        let before = (if grab.is_some() { 2 } else if hover { 1 } else { 0 }, pos);
                        let (a, z) = ScrollBarRender::thumb_bounds(track, virt as f32, win as f32, pos);
                        let mut go = |k: MouseEventKind, q: i32| b.on_mouse(ev(k, cell(q).0 as u16, cell(q).1 as u16), region);
                        let left = MouseButton::Left;
                        let (got, want): (Option<ScrollMessage>, Option<ScrollMessage>) = match *op {
                            WOp::On(q) => {
                                let r = go(MouseEventKind::Moved, q);
                                hover = true;
                                (r, None)
                            }
                            WOp::Off => {
                                b.clear_hover();
                                hover = false;
                                (None, None)
                            }
                            WOp::Press(q) => {
                                if grab.is_some() {
                                    continue;
                                }
                                let r = go(MouseEventKind::Down(left), q);
                                let m = |back: bool| match (vertical, back) {
                                    (true, true) => ScrollMessage::ScrollUp,
                                    (true, false) => ScrollMessage::ScrollDown,
                                    (false, true) => ScrollMessage::ScrollLeft,
                                    (false, false) => ScrollMessage::ScrollRight,
                                };
                                if virt <= win {
                                    // Nothing to scroll: whatever it says moves nothing.
                                    (None, None)
                                } else if q < a {
                                    (r, Some(m(true)))
                                } else if q >= z {
                                    (r, Some(m(false)))
                                } else {
                                    grab = Some(q - a);
                                    (r, None)
                                }
                            }
                            WOp::Drag(q) => {
                                let r = go(MouseEventKind::Drag(left), q);
                                match grab {
                                    Some(g) => {
                                        let room = (track - (z - a)).max(0);
                                        let to = (q - g).clamp(0, room);
                                        let y = match &r {
                                            Some(ScrollMessage::ScrollTo { x: None, y: Some(y), .. }) if vertical => *y,
                                            Some(ScrollMessage::ScrollTo { x: Some(x), y: None, .. }) if !vertical => *x,
                                            r => return Err(err(format!("dragging said {r:?}"))),
                                        };
                                        let y = y.clamp(0.0, far);
                                        let want = if room > 0 { to as f32 / room as f32 * far } else { y };
                                        ensure!((y - want).abs() < 0.01, "{}", err(format!("dragged to {y}, expected {want}")));
                                        pos = y.round();
                                        (None, None)
                                    }
                                    None => (r, None),
                                }
                            }
                            WOp::Release(q) => {
                                let r = go(MouseEventKind::Up(left), q);
                                textual::tree::clear_all_active(&mut b as &mut dyn Widget<ScrollMessage>);
                                if grab.take().is_some() {
                                    hover = true;
                                }
                                (r, None)
                            }
                            WOp::Away => {
                                textual::tree::clear_all_active(&mut b as &mut dyn Widget<ScrollMessage>);
                                if grab.take().is_some() {
                                    hover = false;
                                }
                                (None, None)
                            }
                            WOp::Wheel(down) => {
                                let r = go(if down { MouseEventKind::ScrollDown } else { MouseEventKind::ScrollUp }, 0);
                                let m = match (vertical, down) {
                                    (true, true) => ScrollMessage::ScrollDown,
                                    (true, false) => ScrollMessage::ScrollUp,
                                    (false, true) => ScrollMessage::ScrollRight,
                                    (false, false) => ScrollMessage::ScrollLeft,
                                };
                                (r, Some(m))
                            }
                        };
                        ensure!(format!("{got:?}") == format!("{want:?}"), "{}", err(format!("said {got:?}, expected {want:?}")));
                        match got {
                            Some(ScrollMessage::ScrollUp | ScrollMessage::ScrollLeft) => pos = (pos - win as f32).clamp(0.0, far),
                            Some(ScrollMessage::ScrollDown | ScrollMessage::ScrollRight) => pos = (pos + win as f32).clamp(0.0, far),
                            _ => {}
                        }
                        b.update(virt as f32, win as f32, pos);
                        let state = if grab.is_some() { 2 } else if hover { 1 } else { 0 };
                        if (state, pos) != before {
                            ensure!(b.is_dirty(), "{}", err("looks different but is not drawn again".into()));
                        }
                        b.mark_clean();
                        if step + 1 == ops.len() {
                            let mut c = Canvas::new(12, 10);
                            b.render(&mut c, region);
                            let e = bar.check(&c, pos as i32, pal.thumb[state], pal.track[state]).map_err(|e| format!("{ops:?} (hover {hover}, grabbed {grab:?}): {e}"))?;
                            for y in 0..10 {
                                for x in 0..12 {
                                    ensure!(cells.contains(&(x, y)) || c.cell_at((y * 12 + x) as usize).bg.is_none(), "the bar painted {x},{y}");
                                }
                            }
                            w.outcome(&e);
                        }
                    }
                }
            }
            w.state(&i);
            Ok(())
        },
    );
}

fn bars_shown(ctx: &Ctx) {
    let kinds = ["Screen", "Container", "ScrollableContainer", "VerticalScroll", "HorizontalScroll"];
    let chrome: &[(&str, (i32, i32), (i32, i32), bool)] = &[
        // css, left/top of the inner box, thickness of the vertical and horizontal bar, are they visible
        ("scrollbar-size: 1 1;", (0, 0), (1, 1), true),
        ("border: solid white; scrollbar-size: 1 2;", (1, 1), (2, 1), true),
        ("padding: 1; scrollbar-size: 2 1;", (1, 1), (1, 2), true),
        ("scrollbar-gutter: stable; scrollbar-size: 1 1;", (0, 0), (1, 1), true),
        ("border: solid white; scrollbar-visibility: hidden;", (1, 1), (2, 1), false),
        ("scrollbar-size: 0 1;", (0, 0), (1, 0), true),
    ];
    let alpha = [
        BOp::Wheel(true),
        BOp::Wheel(false),
        BOp::On(true),
        BOp::On(false),
        BOp::Off,
        BOp::Away,
        BOp::Grab(true),
        BOp::Grab(false),
        BOp::Page(true),
        BOp::Page(false),
        BOp::Drag(4),
        BOp::Drag(1),
        BOp::Release,
    ];
    let depth = ctx.pick(3, 4) as u32;
    let sizes: &[(u16, u16)] = if ctx.thorough() {
        &[(30, 20), (13, 7), (40, 3), (3, 30), (2, 2), (12, 9), (11, 6), (60, 60)]
    } else {
        &[(30, 20), (13, 7), (40, 3), (3, 30), (2, 2)]
    };
    let (w0, h0) = (14u16, 9u16);
    let mut sets = vec![];
    for k in 0..kinds.len() {
        for o in 0..OVER.len() {
            for c in 0..chrome.len() {
                for s in 0..sizes.len() {
                    for p in 0..PALETTES.len() {
                        // Quick: every pair of values still occurs.
                        if ctx.thorough() || (k + o * 2 + c + s * 2 + p) % 11 == 0 {
                            sets.push((k, o, c, s, p));
                        }
                    }
                }
            }
        }
    }
    let n = (alpha.len() as u64).pow(depth);
    let dec = |i: u64| {
        let mut m = Mix(i);
        (0..depth).map(|_| *m.of(&alpha)).collect::<Vec<BOp>>()
    };
    let per = 13u64;
    ctx.explore(
        "bars drawn after every history",
        sets.len() as u64 * per,
        |i| {
            let (k, o, c, s, p) = sets[(i / per) as usize];
            format!("{} {} {} content {:?} palette {p} first {:?}", kinds[k], OVER[o].0, chrome[c].0, sizes[s], alpha[(i % per) as usize])
        },
        |i, w| {
            let (k, o, c, s, p) = sets[(i / per) as usize];
            let (kind, (over, _, _), (extra, edge, (vs, hs), visible), (cw, ch), pal) = (kinds[k], OVER[o], chrome[c], sizes[s], &PALETTES[p]);
            let sel = if kind == "Screen" { "Screen" } else { "#s" };
            let css = format!("{} {sel} {{ {over} {extra} {} }} #c {{ width: {cw}; height: {ch}; }}", if kind == "Screen" { "App { background: rgb(0, 0, 20); } Screen { background: rgb(0, 0, 20); }" } else { "Screen { background: rgb(0, 0, 20); layout: horizontal; } #s { background: rgb(0, 0, 20); width: 14; height: 100%; } #beside { width: 3; height: 100%; }" }, pal.css);
            // Beside a container there is something else.
            let all = if kind == "Screen" { w0 } else { w0 + 3 };
            let th = theme();
            let mut parsed = None;
            let mut make = || {
                let sheet = Sheet { size: Size::new(cw, ch), style: ComputedStyle::default(), id: "c" };
                let screen: W1 = match kind {
                    "Screen" => Box::new(Screen::new(vec![Box::new(sheet)])),
                    _ => Box::new(Screen::new(vec![container(kind, "s", vec![Box::new(sheet)]), Box::new(Label::new("").with_id("beside"))])),
                };
                let mut root: W1 = Box::new(AppWidget::new(vec![screen, Box::new(Tooltip::<Msg>::new())]));
                let sheet = parsed.get_or_insert_with(|| parse_stylesheet(&build_combined_css(root.as_mut(), &css)).expect("css"));
                grow_with(root, sheet, th, all, h0)
            };
            // Which bars there are, from the definition of overflow.
            let (iw, ih) = (w0 as i32 - 2 * edge.0, h0 as i32 - 2 * edge.1);
            let (cw, ch) = (cw as i32, ch as i32);
            let (mut v, mut h) = (false, false);
            let (mut win_w, mut win_h) = (iw, ih);
            for _ in 0..4 {
                // A stable gutter keeps the space of a vertical bar that may come.
                win_w = (iw - if v || (extra.contains("stable") && o != 3) { vs } else { 0 }).max(0);
                win_h = (ih - if h { hs } else { 0 }).max(0);
                let (ox, oy) = match o {
                    0 => (ch > win_h, cw > win_w),
                    1 => (true, true),
                    2 => (ch > win_h, false),
                    3 => (false, cw > win_w),
                    _ => (ch > win_h, true),
                };
                v |= ox;
                h |= oy;
            }
            let x1 = edge.0 + iw;
            let y1 = edge.1 + ih;
            let (vt, ht) = ((ih - if h { hs } else { 0 }).max(0), (iw - if v { vs } else { 0 }).max(0));
            let (show_v, show_h) = (v && visible && vs > 0, h && visible && hs > 0);
            let vbar = Bar { vertical: true, cells: (0..vs).map(|d| (0..vt).map(|q| (x1 - vs + d, edge.1 + q)).collect()).collect(), track: vt, virt: ch, win: win_h };
            let hbar = Bar { vertical: false, cells: (0..hs).map(|d| (0..ht).map(|q| (edge.0 + q, y1 - hs + d)).collect()).collect(), track: ht, virt: cw, win: win_w };
            let region = Region::from_u16(0, 0, all, h0);
            for j in 0..n / per {
                let ops = dec(i % per + j * per);
                let mut t = make();
                let (mut hover, mut grab): (Option<bool>, Option<bool>) = (None, None);
                let mut done = vec![];
                for step in 0..=ops.len() {
                    w.step();
                    let canvas = paint(&mut t, all, h0);
                    let look = || -> Result<(Vec<bool>, Vec<bool>), String> {
                        let m = window(&canvas);
                        let pos = match m.values().next() {
                            Some(_) => {
                                let (pos, size, at) = rect(&m, &canvas)?;
                                let want = ((cw - pos.0).min(win_w), (ch - pos.1).min(win_h));
                                ensure!(size == want && at == edge, "{size:?} of the content is shown at {at:?}, expected {want:?} at {edge:?}");
                                pos
                            }
                            None => return Err(format!("nothing is shown\n{}", canvas.to_snapshot())),
                        };
                        // A Container has bars to look at only.
                        let state = |vertical: bool| if kind == "Container" { 0 } else if grab == Some(vertical) { 2 } else if hover == Some(vertical) { 1 } else { 0 };
                        let mut bars: BTreeSet<(i32, i32)> = BTreeSet::new();
                        let (mut ve, mut he) = (vec![], vec![]);
                        if show_v {
                            ve = vbar.check(&canvas, pos.1, pal.thumb[state(true)], pal.track[state(true)])?;
                            bars.extend(vbar.cells.iter().flatten());
                        }
                        if show_h {
                            he = hbar.check(&canvas, pos.0, pal.thumb[state(false)], pal.track[state(false)])?;
                            bars.extend(hbar.cells.iter().flatten());
                        }
                        for y in 0..h0 as i32 {
                            for x in 0..all as i32 {
                                let cell = canvas.cell_at((y * all as i32 + x) as usize);
                                let bg = match cell.bg {
                                    Some(Color::Rgb { r, g, b }) => Some((r, g, b)),
                                    _ => None,
                                };
                                if show_v && show_h && (x1 - vs..x1).contains(&x) && (y1 - hs..y1).contains(&y) {
                                    ensure!(bg == Some(pal.corner) && cell.symbol == " ", "the corner between the bars at {x},{y} is {cell:?}, expected {:?}", pal.corner);
                                } else if !bars.contains(&(x, y)) {
                                    let strange = pal.track.iter().chain(pal.thumb.iter().flatten()).any(|k| bg == Some(*k)) || bg == Some(pal.corner);
                                    ensure!(!strange, "{x},{y} has the colour of a scrollbar: {cell:?}");
                                }
                            }
                        }
                        Ok((ve, he))
                    };
                    // What was seen before the last operation was seen after a shorter history already.
                    let again = ops.get(step).is_some_and(|o| !matches!(o, BOp::Grab(_) | BOp::Page(_))) && ops[step..].iter().any(|o| *o != alpha[0]);
                    let (ve, he) = if again { Ok(Default::default()) } else { look() }.map_err(|e| format!("after {done:?} (hover {hover:?}, grabbed {grab:?}): {e}\n{}", canvas.to_snapshot()))?;
                    let Some(op) = ops.get(step) else { break };
                    done.push(*op);
                    let (down, drag, up) = (MouseEventKind::Down(MouseButton::Left), MouseEventKind::Drag(MouseButton::Left), MouseEventKind::Up(MouseButton::Left));
                    let cell_of = |vertical: bool, q: i32| if vertical { (x1 - 1, edge.1 + q) } else { (edge.0 + q, y1 - 1) };
                    let mut send = |k: MouseEventKind, (x, y): (i32, i32)| {
                        if k == MouseEventKind::Moved {
                            clear_all_hover(t.root_mut());
                        }
                        t.root_mut().on_mouse_with_sender(ev(k, x as u16, y as u16), region);
                        if k == up {
                            textual::tree::clear_all_active(t.root_mut());
                        }
                    };
                    let content = (edge.0, edge.1);
                    match *op {
                        BOp::Wheel(d) if grab.is_none() => send(if d { MouseEventKind::ScrollDown } else { MouseEventKind::ScrollRight }, content),
                        BOp::On(vertical) if grab.is_none() && (if vertical { show_v && vt > 0 } else { show_h && ht > 0 }) => {
                            send(MouseEventKind::Moved, cell_of(vertical, 0));
                            hover = Some(vertical);
                        }
                        BOp::Off if grab.is_none() && win_w > 0 && win_h > 0 => {
                            send(MouseEventKind::Moved, content);
                            hover = None;
                        }
                        BOp::Away if grab.is_none() && all > w0 => {
                            send(MouseEventKind::Moved, (w0 as i32 + 1, 4));
                            hover = None;
                        }
                        BOp::Grab(vertical) if grab.is_none() && kind != "Container" => {
                            let e = if vertical { &ve } else { &he };
                            if let Some(q) = e.iter().position(|k| *k) {
                                send(MouseEventKind::Moved, cell_of(vertical, q as i32 / 8));
                                send(down, cell_of(vertical, q as i32 / 8));
                                hover = Some(vertical);
                                grab = Some(vertical);
                            }
                        }
                        BOp::Page(vertical) if grab.is_none() => {
                            let e = if vertical { &ve } else { &he };
                            if e.last() == Some(&false) && e.contains(&true) {
                                let q = e.len() as i32 / 8 - 1;
                                send(MouseEventKind::Moved, cell_of(vertical, q));
                                send(down, cell_of(vertical, q));
                                send(up, cell_of(vertical, q));
                                hover = Some(vertical);
                            }
                        }
                        BOp::Drag(quarter) => {
                            if let Some(vertical) = grab {
                                let len = if vertical { vt } else { ht };
                                send(drag, cell_of(vertical, (len - 1) * quarter as i32 / 4));
                            }
                        }
                        BOp::Release => {
                            if let Some(vertical) = grab.take() {
                                send(up, cell_of(vertical, 0));
                                send(MouseEventKind::Moved, cell_of(vertical, 0));
                                hover = Some(vertical);
                            }
                        }
                        _ => {}
                    }
                    w.outcome(&(ve, he));
                }
            }
            w.state(&(k, o, c, s, p, i % per));
            Ok(())
        },
    );
}

fn c38(ctx: &Ctx) {
    bars_shown(ctx);
    bar_widget(ctx);
}

fn main() {
    main_with(&[("C18", c18), ("C19", c19), ("C38", c38)]);
}
