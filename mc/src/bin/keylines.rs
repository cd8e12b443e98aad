//! C39 keylines: lines drawn between children join up, close, and keep out of the children.
use crossterm::style::Color;
use mc::probe::*;
use mc::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use tcss::parser::parse_stylesheet;
use tcss::types::{RgbaColor, Theme};
use textual::box_drawing::{combine_quads, get_box_char};
use textual::keyline_canvas::KeylineCanvas;
use textual::style_resolver::resolve_styles;
use textual::testing::build_combined_css;
use textual::widget::screen::Screen;
use textual::widget::Widget;
use textual::{Canvas, Label, Region, Size};

/// The arms (up, right, down, left; 1 light, 2 heavy, 3 double) of the box drawing characters, from their Unicode names.
const ARMS: &[(char, (u8, u8, u8, u8))] = &[
    ('─', (0, 1, 0, 1)),
    ('━', (0, 2, 0, 2)),
    ('│', (1, 0, 1, 0)),
    ('┃', (2, 0, 2, 0)),
    ('┌', (0, 1, 1, 0)),
    ('┍', (0, 2, 1, 0)),
    ('┎', (0, 1, 2, 0)),
    ('┏', (0, 2, 2, 0)),
    ('┐', (0, 0, 1, 1)),
    ('┑', (0, 0, 1, 2)),
    ('┒', (0, 0, 2, 1)),
    ('┓', (0, 0, 2, 2)),
    ('└', (1, 1, 0, 0)),
    ('┕', (1, 2, 0, 0)),
    ('┖', (2, 1, 0, 0)),
    ('┗', (2, 2, 0, 0)),
    ('┘', (1, 0, 0, 1)),
    ('┙', (1, 0, 0, 2)),
    ('┚', (2, 0, 0, 1)),
    ('┛', (2, 0, 0, 2)),
    ('├', (1, 1, 1, 0)),
    ('┝', (1, 2, 1, 0)),
    ('┞', (2, 1, 1, 0)),
    ('┟', (1, 1, 2, 0)),
    ('┠', (2, 1, 2, 0)),
    ('┡', (2, 2, 1, 0)),
    ('┢', (1, 2, 2, 0)),
    ('┣', (2, 2, 2, 0)),
    ('┤', (1, 0, 1, 1)),
    ('┥', (1, 0, 1, 2)),
    ('┦', (2, 0, 1, 1)),
    ('┧', (1, 0, 2, 1)),
    ('┨', (2, 0, 2, 1)),
    ('┩', (2, 0, 1, 2)),
    ('┪', (1, 0, 2, 2)),
    ('┫', (2, 0, 2, 2)),
    ('┬', (0, 1, 1, 1)),
    ('┭', (0, 1, 1, 2)),
    ('┮', (0, 2, 1, 1)),
    ('┯', (0, 2, 1, 2)),
    ('┰', (0, 1, 2, 1)),
    ('┱', (0, 1, 2, 2)),
    ('┲', (0, 2, 2, 1)),
    ('┳', (0, 2, 2, 2)),
    ('┴', (1, 1, 0, 1)),
    ('┵', (1, 1, 0, 2)),
    ('┶', (1, 2, 0, 1)),
    ('┷', (1, 2, 0, 2)),
    ('┸', (2, 1, 0, 1)),
    ('┹', (2, 1, 0, 2)),
    ('┺', (2, 2, 0, 1)),
    ('┻', (2, 2, 0, 2)),
    ('┼', (1, 1, 1, 1)),
    ('┽', (1, 1, 1, 2)),
    ('┾', (1, 2, 1, 1)),
    ('┿', (1, 2, 1, 2)),
    ('╀', (2, 1, 1, 1)),
    ('╁', (1, 1, 2, 1)),
    ('╂', (2, 1, 2, 1)),
    ('╃', (2, 1, 1, 2)),
    ('╄', (2, 2, 1, 1)),
    ('╅', (1, 1, 2, 2)),
    ('╆', (1, 2, 2, 1)),
    ('╇', (2, 2, 1, 2)),
    ('╈', (1, 2, 2, 2)),
    ('╉', (2, 1, 2, 2)),
    ('╊', (2, 2, 2, 1)),
    ('╋', (2, 2, 2, 2)),
    ('═', (0, 3, 0, 3)),
    ('║', (3, 0, 3, 0)),
    ('╒', (0, 3, 1, 0)),
    ('╓', (0, 1, 3, 0)),
    ('╔', (0, 3, 3, 0)),
    ('╕', (0, 0, 1, 3)),
    ('╖', (0, 0, 3, 1)),
    ('╗', (0, 0, 3, 3)),
    ('╘', (1, 3, 0, 0)),
    ('╙', (3, 1, 0, 0)),
    ('╚', (3, 3, 0, 0)),
    ('╛', (1, 0, 0, 3)),
    ('╜', (3, 0, 0, 1)),
    ('╝', (3, 0, 0, 3)),
    ('╞', (1, 3, 1, 0)),
    ('╟', (3, 1, 3, 0)),
    ('╠', (3, 3, 3, 0)),
    ('╡', (1, 0, 1, 3)),
    ('╢', (3, 0, 3, 1)),
    ('╣', (3, 0, 3, 3)),
    ('╤', (0, 3, 1, 3)),
    ('╥', (0, 1, 3, 1)),
    ('╦', (0, 3, 3, 3)),
    ('╧', (1, 3, 0, 3)),
    ('╨', (3, 1, 0, 1)),
    ('╩', (3, 3, 0, 3)),
    ('╪', (1, 3, 1, 3)),
    ('╫', (3, 1, 3, 1)),
    ('╬', (3, 3, 3, 3)),
    ('╴', (0, 0, 0, 1)),
    ('╵', (1, 0, 0, 0)),
    ('╶', (0, 1, 0, 0)),
    ('╷', (0, 0, 1, 0)),
    ('╸', (0, 0, 0, 2)),
    ('╹', (2, 0, 0, 0)),
    ('╺', (0, 2, 0, 0)),
    ('╻', (0, 0, 2, 0)),
    ('╼', (0, 2, 0, 1)),
    ('╽', (1, 0, 2, 0)),
    ('╾', (0, 1, 0, 2)),
    ('╿', (2, 0, 1, 0)),
];

type Quad = (u8, u8, u8, u8);

fn arms(c: char) -> Option<Quad> {
    ARMS.iter().find(|a| a.0 == c).map(|a| a.1)
}

/// Pieces of lines between the middles of neighbouring cells.
#[derive(Default, Clone)]
struct Segs {
    h: BTreeSet<(i32, i32)>,
    v: BTreeSet<(i32, i32)>,
}

impl Segs {
    fn hline(&mut self, y: i32, x0: i32, x1: i32) {
        self.h.extend((x0..x1).map(|x| (x, y)));
    }
    fn vline(&mut self, x: i32, y0: i32, y1: i32) {
        self.v.extend((y0..y1).map(|y| (x, y)));
    }
    fn grid(&mut self, cols: &[i32], rows: &[i32]) {
        if cols.len() < 2 || rows.len() < 2 {
            return;
        }
        for y in rows {
            self.hline(*y, cols[0], *cols.last().unwrap());
        }
        for x in cols {
            self.vline(*x, rows[0], *rows.last().unwrap());
        }
    }
    fn at(&self, x: i32, y: i32, t: u8) -> Quad {
        let k = |b: bool| if b { t } else { 0 };
        (k(self.v.contains(&(x, y - 1))), k(self.h.contains(&(x, y))), k(self.v.contains(&(x, y))), k(self.h.contains(&(x - 1, y))))
    }
}

#[derive(Clone, Debug)]
enum Add {
    Box(i32, i32, i32, i32),
    Grid(Vec<i32>, Vec<i32>),
    Occ(Vec<i32>, Vec<i32>, Vec<Vec<Option<usize>>>),
}

impl Add {
    fn apply(&self, k: &mut KeylineCanvas) {
        let u = |v: &[i32]| v.iter().map(|x| *x as usize).collect::<Vec<_>>();
        match self {
            Add::Box(x, y, w, h) => k.add_widget_box(*x as usize, *y as usize, *w as usize, *h as usize),
            Add::Grid(c, r) => k.add_grid(&u(c), &u(r)),
            Add::Occ(c, r, o) => k.add_grid_with_occupancy(&u(c), &u(r), o),
        }
    }
    fn model(&self, s: &mut Segs) {
        match self {
            Add::Box(x, y, w, h) => s.grid(&[*x, *x + *w - 1], &[*y, *y + *h - 1]),
            Add::Grid(c, r) => s.grid(c, r),
            Add::Occ(c, r, o) => {
                if c.len() < 2 || r.len() < 2 {
                    return;
                }
                s.grid(&[c[0], *c.last().unwrap()], &[r[0], *r.last().unwrap()]);
                for i in 0..r.len() - 1 {
                    for j in 0..c.len() - 1 {
                        if j > 0 && o[i][j] != o[i][j - 1] {
                            s.vline(c[j], r[i], r[i + 1]);
                        }
                        if i > 0 && o[i][j] != o[i - 1][j] {
                            s.hline(r[i], c[j], c[j + 1]);
                        }
                    }
                }
            }
        }
    }
}

/// All increasing lists of up to `most` of 0..n.
fn lists(n: i32, most: usize) -> Vec<Vec<i32>> {
    (0..1u32 << n).map(|m| (0..n).filter(|b| m >> b & 1 == 1).collect::<Vec<_>>()).filter(|v| v.len() <= most).collect()
}

fn rgb(c: Option<Color>) -> Option<(u8, u8, u8)> {
    match c {
        Some(Color::Rgb { r, g, b }) => Some((r, g, b)),
        _ => None,
    }
}

fn lines_of(c: &Canvas) -> Result<BTreeMap<(i32, i32), Quad>, String> {
    let (w, h) = c.size();
    let mut out = BTreeMap::new();
    for y in 0..h as i32 {
        for x in 0..w as i32 {
            let ch = c.cell_at(y as usize * w as usize + x as usize).symbol.chars().next().unwrap_or(' ');
            if ('\u{2500}'..='\u{257f}').contains(&ch) {
                out.insert((x, y), arms(ch).ok_or_else(|| format!("{ch:?} at {x},{y} is no joining line"))?);
            }
        }
    }
    Ok(out)
}

const RED: (u8, u8, u8) = (200, 10, 20);

fn canvas_phase(ctx: &Ctx) {
    ctx.explore(
        "box characters",
        256,
        |i| format!("quad {}{}{}{}", i & 3, i >> 2 & 3, i >> 4 & 3, i >> 6 & 3),
        |i, w| {
            let q = ((i & 3) as u8, (i >> 2 & 3) as u8, (i >> 4 & 3) as u8, (i >> 6 & 3) as u8);
            let got = get_box_char(q);
            if let Some(c) = got {
                ensure!(arms(c) == Some(q), "{q:?} is drawn as {c:?}, whose arms are {:?}", arms(c));
            }
            // One kind of line, with at least two arms, can always be drawn.
            let used: Vec<u8> = [q.0, q.1, q.2, q.3].into_iter().filter(|k| *k > 0).collect();
            if used.len() >= 2 && used.iter().all(|k| *k == used[0]) {
                ensure!(got.is_some(), "there is no character for {q:?}");
            }
            for j in 0..256u64 {
                let r = ((j & 3) as u8, (j >> 2 & 3) as u8, (j >> 4 & 3) as u8, (j >> 6 & 3) as u8);
                let both = (q.0.max(r.0), q.1.max(r.1), q.2.max(r.2), q.3.max(r.3));
                ensure!(combine_quads(q, r) == both, "{q:?} with {r:?} is {:?}", combine_quads(q, r));
                w.step();
            }
            w.outcome(&got);
            w.state(&q);
            Ok(())
        },
    );
    let (cw, ch) = if ctx.thorough() { (6, 5) } else { (5, 4) };
    let mut adds = vec![];
    for x in 0..cw {
        for y in 0..ch {
            for w in 2..=cw + 1 - x {
                for h in 2..=ch + 1 - y {
                    adds.push(Add::Box(x, y, w, h));
                }
            }
        }
    }
    for c in lists(cw + 1, 4) {
        for r in lists(ch + 1, 4) {
            adds.push(Add::Grid(c.clone(), r));
        }
    }
    for (c, r) in [(vec![0, 2, 4], vec![0, 1, 3]), (vec![0, 1, 3], vec![1, 2, 4]), (vec![0, 2, 3, 4], vec![0, 2, 3]), (vec![1, 4], vec![0, 1, 3]), (vec![0, 2, 4], vec![0, 3])] {
        let n = (c.len() - 1) * (r.len() - 1);
        for code in 0..4u64.pow(n as u32) {
            let mut m = Mix(code);
            let o = (0..r.len() - 1).map(|_| (0..c.len() - 1).map(|_| [None, Some(0), Some(1), Some(2)][m.pick(4)]).collect()).collect();
            adds.push(Add::Occ(c.clone(), r.clone(), o));
        }
    }
    let firsts: Vec<Option<usize>> = std::iter::once(None).chain((0..adds.len()).map(Some)).collect();
    ctx.explore(
        "lines on a canvas",
        firsts.len() as u64,
        |i| format!("first {:?}", firsts[i as usize].map(|k| &adds[k])),
        |i, w| {
            let first = firsts[i as usize].map(|k| &adds[k]);
            // After a first one, all boxes and every seventh of the grids.
            for (j, a) in adds.iter().enumerate() {
                if first.is_some() && !matches!(a, Add::Box(..)) && j % 7 != i as usize % 7 {
                    continue;
                }
                for t in 1..=3u8 {
                    if first.is_some() && t != 1 + (i % 3) as u8 {
                        continue;
                    }
                    w.step();
                    let mut k = KeylineCanvas::new(cw as usize, ch as usize, t, RgbaColor::rgb(RED.0, RED.1, RED.2));
                    let mut s = Segs::default();
                    for add in first.into_iter().chain([a]) {
                        add.apply(&mut k);
                        add.model(&mut s);
                    }
                    let mut c = Canvas::new(cw as u16 + 3, ch as u16 + 3);
                    k.render(&mut c, Region { x: 2, y: 1, width: cw, height: ch });
                    let got = lines_of(&c).map_err(|e| format!("{first:?} {a:?}: {e}"))?;
                    for y in 0..ch + 3 {
                        for x in 0..cw + 3 {
                            let inside = (2..2 + cw).contains(&x) && (1..1 + ch).contains(&y);
                            let want = if inside { s.at(x - 2, y - 1, t) } else { (0, 0, 0, 0) };
                            let g = got.get(&(x, y)).copied().unwrap_or((0, 0, 0, 0));
                            ensure!(g == want, "then {a:?} with lines {t}: at {},{} the arms are {g:?}, expected {want:?}\n{}", x - 2, y - 1, c.to_snapshot());
                            let cell = c.cell_at((y * (cw + 3) + x) as usize);
                            ensure!(g == (0, 0, 0, 0) || rgb(cell.fg) == Some(RED), "a line has the colour {:?}", cell.fg);
                        }
                    }
                }
            }
            w.state(&i);
            Ok(())
        },
    );
}

fn theme() -> &'static Theme {
    static THEME: std::sync::OnceLock<Theme> = std::sync::OnceLock::new();
    THEME.get_or_init(|| Theme::standard_themes().get("textual-dark").cloned().unwrap())
}

fn draw(screen: W1, css: &str, w: u16, h: u16) -> Canvas {
    let mut root = screen;
    let sheet = parse_stylesheet(&build_combined_css(root.as_mut(), css)).expect("css");
    root.on_resize(Size::new(w, h));
    let mut anc = VecDeque::new();
    resolve_styles(root.as_mut(), &sheet, theme(), &mut anc);
    let mut c = Canvas::new(w, h);
    root.render(&mut c, Region::from_u16(0, 0, w, h));
    c
}

/// Every arm meets one of the same kind, none ends in nothing.
fn joined(lines: &BTreeMap<(i32, i32), Quad>, t: u8) -> Result<(), String> {
    let get = |x: i32, y: i32| lines.get(&(x, y)).copied().unwrap_or((0, 0, 0, 0));
    for ((x, y), q) in lines {
        for k in [q.0, q.1, q.2, q.3] {
            ensure!(k == 0 || k == t, "the line at {x},{y} is of kind {q:?}, expected {t}");
        }
        for (mine, other, way) in [(q.0, get(*x, y - 1).2, "above"), (q.1, get(x + 1, *y).3, "right of"), (q.2, get(*x, y + 1).0, "below"), (q.3, get(x - 1, *y).1, "left of")] {
            ensure!(mine == other, "the line at {x},{y} does not join what is {way} it ({mine} against {other})");
        }
    }
    Ok(())
}

const KINDS: [(&str, u8); 3] = [("thin", 1), ("heavy", 2), ("double", 3)];
/// Chrome of the container, and what it takes at the left and top, right and bottom.
const CHROME: [(&str, (i32, i32), (i32, i32)); 3] = [("", (0, 0), (0, 0)), ("padding: 1 2;", (2, 1), (2, 1)), ("border: blank white; padding: 0 0 1 1;", (2, 1), (1, 2))];

fn kid_color(i: usize) -> (u8, u8, u8) {
    (0, 40 + 10 * i as u8, 90)
}

fn grid_phase(ctx: &Ctx) {
    let spans = ["", "column-span: 2;", "row-span: 2;", "column-span: 2; row-span: 2;"];
    let gutters = ["1", "2", "1 3", "2 1"];
    let most = ctx.pick(4, 5) as u32;
    let mut cases = vec![];
    for n in 1..=most {
        for code in 0..4u64.pow(n) {
            for cols in 1..=4usize {
                for g in 0..gutters.len() {
                    for ch in 0..CHROME.len() {
                        for tracks in 0..3 {
                            if ctx.thorough() || (code as usize + cols + g + ch + tracks) % 4 == 0 {
                                cases.push((n, code, cols, g, ch, tracks));
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.explore(
        "keylines of a grid",
        cases.len() as u64,
        |i| {
            let (n, code, cols, g, ch, tracks) = cases[i as usize];
            let mut m = Mix(code);
            let s: Vec<&str> = (0..n).map(|_| *m.of(&spans)).collect();
            format!("columns {cols} gutter {} {} tracks {tracks} children {s:?}", gutters[g], CHROME[ch].0)
        },
        |i, w| {
            let (n, code, cols, g, ch, tracks) = cases[i as usize];
            let mut m = Mix(code);
            let (chrome, (l, t), (r, b)) = CHROME[ch];
            let (kind, lt) = KINDS[i as usize % 3];
            let tracks = ["", "grid-columns: 1fr 2fr; grid-rows: 2fr 1fr;", "grid-columns: 4 6; grid-rows: 3 2;"][tracks];
            let (sw, sh) = (44u16, 56u16);
            let mut css = format!("Screen {{ background: black; }} #g {{ grid-size: {cols}; grid-gutter: {}; {tracks} {chrome} keyline: {kind} rgb(200, 10, 20); width: 40; height: 52; }}", gutters[g]);
            let mut kids: Vec<W1> = vec![];
            for k in 0..n as usize {
                let c = kid_color(k);
                css += &format!(" #k{k} {{ background: rgb({}, {}, {}); width: 100%; height: 100%; {} }}", c.0, c.1, c.2, m.of(&spans));
                kids.push(Box::new(Label::new("").with_id(format!("k{k}"))));
            }
            w.step();
            let c = draw(Box::new(Screen::new(vec![container("Grid", "g", kids)])), &css, sw, sh);
            let mut see = || -> Result<(), String> {
                let lines = lines_of(&c)?;
                joined(&lines, lt)?;
                let cell = |x: i32, y: i32| c.cell_at((y * sw as i32 + x) as usize);
                let (x0, y0, x1, y1) = (l, t, 40 - r - 1, 52 - b - 1);
                for (p, q) in [((x0, y0), (0, lt, lt, 0)), ((x1, y0), (0, 0, lt, lt)), ((x0, y1), (lt, lt, 0, 0)), ((x1, y1), (lt, 0, 0, lt))] {
                    ensure!(lines.get(&p) == Some(&q), "the corner at {p:?} has the arms {:?}, expected {q:?}", lines.get(&p));
                }
                let mut area: BTreeMap<usize, BTreeSet<(i32, i32)>> = BTreeMap::new();
                for y in 0..sh as i32 {
                    for x in 0..sw as i32 {
                        let k = (0..n as usize).find(|k| rgb(cell(x, y).bg) == Some(kid_color(*k)));
                        if let Some(k) = k {
                            area.entry(k).or_default().insert((x, y));
                            ensure!(!lines.contains_key(&(x, y)), "a line crosses child {k} at {x},{y}");
                        }
                        if lines.contains_key(&(x, y)) {
                            ensure!((x0..=x1).contains(&x) && (y0..=y1).contains(&y), "a line is drawn outside at {x},{y}");
                            ensure!(rgb(cell(x, y).fg) == Some(RED), "the line at {x},{y} has the colour {:?}", cell(x, y).fg);
                        }
                    }
                }
                for k in 0..n as usize {
                    let a = area.get(&k).ok_or_else(|| format!("child {k} is not shown"))?;
                    // What can be reached from the child without crossing a line.
                    let mut seen = a.clone();
                    let mut todo: Vec<(i32, i32)> = a.iter().copied().collect();
                    while let Some((x, y)) = todo.pop() {
                        for p in [(x - 1, y), (x + 1, y), (x, y - 1), (x, y + 1)] {
                            ensure!((x0..=x1).contains(&p.0) && (y0..=y1).contains(&p.1), "child {k} is not enclosed: its box is open at {p:?}");
                            if !lines.contains_key(&p) && seen.insert(p) {
                                todo.push(p);
                            }
                        }
                    }
                    for (o, b) in &area {
                        ensure!(*o == k || b.is_disjoint(&seen), "no line runs between child {k} and child {o}");
                    }
                }
                w.outcome(&lines.len());
                Ok(())
            };
            see().map_err(|e| format!("{e}\n{}", c.to_snapshot()))?;
            w.state(&i);
            Ok(())
        },
    );
}

fn row_phase(ctx: &Ctx) {
    let sizes: &[i32] = if ctx.thorough() { &[1, 2, 3, 5] } else { &[1, 2, 4] };
    let most = ctx.pick(4, 5) as u32;
    let mut cases = vec![];
    for n in 1..=most {
        for code in 0..(sizes.len() as u64).pow(n) {
            for vertical in [false, true] {
                for ch in 0..CHROME.len() {
                    for kind in 0..3usize {
                        cases.push((n, code, vertical, ch, kind));
                    }
                }
            }
        }
    }
    ctx.explore(
        "keylines of rows and columns",
        cases.len() as u64,
        |i| {
            let (n, code, vertical, ch, kind) = cases[i as usize];
            let mut m = Mix(code);
            let s: Vec<i32> = (0..n).map(|_| *m.of(sizes)).collect();
            format!("{} {} {} children {s:?}", if vertical { "Vertical" } else { "Horizontal" }, CHROME[ch].0, KINDS[kind].0)
        },
        |i, w| {
            let (n, code, vertical, ch, kind) = cases[i as usize];
            let mut m = Mix(code);
            let (chrome, (l, t), (r, b)) = CHROME[ch];
            let (kind, lt) = KINDS[kind];
            let (sw, sh) = (36u16, 30u16);
            let mut css = format!("Screen {{ background: black; }} #g {{ {chrome} keyline: {kind} rgb(200, 10, 20); width: 32; height: 28; }}");
            let mut kids: Vec<W1> = vec![];
            let mut ends = vec![0];
            for k in 0..n as usize {
                let s = *m.of(sizes);
                ends.push(ends[k] + s);
                css += &format!(" #k{k} {{ {} }}", if vertical { format!("height: {s}; width: 100%;") } else { format!("width: {s}; height: 100%;") });
                kids.push(Box::new(Label::new("").with_id(format!("k{k}"))));
            }
            w.step();
            let c = draw(Box::new(Screen::new(vec![container(if vertical { "Vertical" } else { "Horizontal" }, "g", kids)])), &css, sw, sh);
            let (iw, ih) = (32 - l - r, 28 - t - b);
            let across = if vertical { ih } else { iw };
            let along: Vec<i32> = ends.iter().copied().filter(|e| *e < across - 1).chain([across - 1]).collect();
            let mut s = Segs::default();
            if vertical {
                s.grid(&[0, iw - 1], &along);
            } else {
                s.grid(&along, &[0, ih - 1]);
            }
            let mut see = || -> Result<(), String> {
                let lines = lines_of(&c)?;
                joined(&lines, lt)?;
                for y in 0..sh as i32 {
                    for x in 0..sw as i32 {
                        let inside = (l..l + iw).contains(&x) && (t..t + ih).contains(&y);
                        let want = if inside { s.at(x - l, y - t, lt) } else { (0, 0, 0, 0) };
                        let g = lines.get(&(x, y)).copied().unwrap_or((0, 0, 0, 0));
                        ensure!(g == want, "the arms at {x},{y} are {g:?}, expected {want:?}");
                        let cell = c.cell_at((y * sw as i32 + x) as usize);
                        ensure!(g == (0, 0, 0, 0) || rgb(cell.fg) == Some(RED), "the line at {x},{y} has the colour {:?}", cell.fg);
                    }
                }
                w.outcome(&lines.len());
                Ok(())
            };
            see().map_err(|e| format!("{e}\n{}", c.to_snapshot()))?;
            w.state(&i);
            Ok(())
        },
    );
}

fn c39(ctx: &Ctx) {
    canvas_phase(ctx);
    grid_phase(ctx);
    row_phase(ctx);
}

fn main() {
    main_with(&[("C39", c39)]);
}
