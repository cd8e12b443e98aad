//! C01 the terminal shows the canvas, C02 drawing and clipping.
use crossterm::style::Color;
use mc::term::*;
use mc::*;
use tcss::types::RgbaColor;
use textual::canvas::{Canvas, Cell, Region, TextAttributes};
use textual::segment::{Segment, Style};
use textual::strip::Strip;
use unicode_segmentation::UnicodeSegmentation;

fn main() {
    std::env::remove_var("NO_COLOR");
    main_with(&[("C01", c01), ("C02", c02)]);
}

fn rgb(c: &Option<Color>) -> Result<Option<(u8, u8, u8)>, String> {
    match c {
        None | Some(Color::Reset) => Ok(None),
        Some(Color::Rgb { r, g, b }) => Ok(Some((*r, *g, *b))),
        o => Err(format!("unexpected colour {o:?}")),
    }
}

fn look(c: &Cell) -> Result<Look, String> {
    let a = c.attrs;
    Ok(Look { fg: rgb(&c.fg)?, bg: rgb(&c.bg)?, attrs: [a.bold, a.dim, a.italic, a.underline, a.strike, a.reverse] })
}

fn cells(cv: &Canvas) -> Vec<Cell> {
    let (w, h) = cv.size();
    (0..w as usize * h as usize).map(|i| cv.cell_at(i).clone()).collect()
}

#[derive(Clone, Debug, PartialEq)]
struct Ink {
    fg: Option<RgbaColor>,
    bg: Option<RgbaColor>,
    attrs: TextAttributes,
}

fn ink(fg: Option<(u8, u8, u8, f32)>, bg: Option<(u8, u8, u8, f32)>, attrs: TextAttributes) -> Ink {
    let f = |c: (u8, u8, u8, f32)| RgbaColor::rgba(c.0, c.1, c.2, c.3);
    Ink { fg: fg.map(f), bg: bg.map(f), attrs }
}

#[derive(Clone, Debug)]
struct Draw {
    x: i32,
    y: i32,
    s: &'static str,
    ink: usize,
}

/// What the terminal must show for this canvas.
fn expected(cs: &[Cell], cols: usize) -> Result<Vec<(String, u8, Look)>, String> {
    let mut v = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = &cs[i];
        ensure!(!c.continuation, "cell {i} is the right half of nothing");
        let w = c.width as usize;
        ensure!(w >= 1 && i % cols + w <= cols, "cell {i} {:?} of width {w} leaves the row", c.symbol);
        let l = look(c)?;
        if w == 1 || c.symbol.chars().all(|x| x == ' ') {
            for k in 0..w {
                v.push((" ".to_string(), 1, l.clone()));
                let _ = k;
            }
            let n = v.len();
            if w == 1 {
                v[n - 1].0 = c.symbol.clone();
            }
        } else {
            v.push((c.symbol.clone(), w as u8, l.clone()));
            for _ in 1..w {
                v.push((String::new(), 0, l.clone()));
            }
        }
        for k in 1..w {
            ensure!(cs[i + k].continuation, "cell {i} {:?} is wide but cell {} is not its right half", c.symbol, i + k);
        }
        i += w;
    }
    Ok(v)
}

fn compare(t: &Term, want: &[(String, u8, Look)]) -> Result<(), String> {
    for (i, (c, e)) in t.cells.iter().zip(want).enumerate() {
        ensure!(c.w == e.1 && c.text == e.0 && c.look == e.2,
            "terminal column {} row {}: shows {:?} (width {}) {:?}, canvas has {:?} (width {}) {:?}",
            i % t.cols, i / t.cols, c.text, c.w, c.look, e.0, e.1, e.2);
    }
    Ok(())
}

/// The independent emulator must agree with our terminal model.
fn cross_check(vt: &vt100::Parser, t: &Term) -> Result<(), String> {
    for y in 0..t.rows {
        for x in 0..t.cols {
            let c = vt.screen().cell(y as u16, x as u16).ok_or("vt100 cell")?;
            let m = &t.cells[y * t.cols + x];
            if m.w == 9 { continue; }
            if m.w == 0 {
                ensure!(c.is_wide_continuation(), "emulators disagree at {x},{y}");
                continue;
            }
            let txt = if c.contents().is_empty() { " ".to_string() } else { c.contents() };
            let col = |c: vt100::Color| match c { vt100::Color::Rgb(r, g, b) => Some((r, g, b)), _ => None };
            ensure!(txt == m.text && c.is_wide() == (m.w == 2) && col(c.fgcolor()) == m.look.fg && col(c.bgcolor()) == m.look.bg
                && c.bold() == m.look.attrs[0] && c.italic() == m.look.attrs[2] && c.underline() == m.look.attrs[3] && c.inverse() == m.look.attrs[5],
                "emulators disagree at {x},{y}: vt100 {:?}, model {m:?}", c.contents());
        }
    }
    Ok(())
}

fn draw(cv: &mut Canvas, inks: &[Ink], d: &Draw) {
    let k = &inks[d.ink];
    cv.put_str(d.x, d.y, d.s, k.fg.clone(), k.bg.clone(), k.attrs);
}

fn attrs(b: u32) -> TextAttributes {
    TextAttributes { bold: b & 1 > 0, dim: b & 2 > 0, italic: b & 4 > 0, underline: b & 8 > 0, strike: b & 16 > 0, reverse: b & 32 > 0 }
}

/// Play frames on one canvas against one terminal.
fn play(cols: u16, rows: u16, frames: &[Vec<Draw>], inks: &[Ink], invalidate: Option<usize>, w: &mut W) -> Result<(), String> {
    let mut cv = Canvas::new(cols, rows);
    let mut t = Term::dirty(cols as usize, rows as usize);
    let mut vt = vt100::Parser::new(rows, cols, 0);
    for (k, f) in frames.iter().enumerate() {
        w.step();
        if invalidate == Some(k) {
            // The screen was disturbed from outside; the program asks for a redraw.
            cv.invalidate();
            t = Term::dirty(cols as usize, rows as usize);
        }
        cv.clear();
        for d in f {
            draw(&mut cv, inks, d);
        }
        let cs = cells(&cv);
        let want = expected(&cs, cols as usize)?;
        let (r, bytes) = grab_stdout(|| cv.flush());
        r.map_err(|e| format!("flush failed: {e}"))?;
        t.feed(&bytes).map_err(|e| format!("frame {k}: {e}"))?;
        compare(&t, &want).map_err(|e| format!("frame {k}: {e}"))?;
        if k == 0 || w.transitions % 16 == 0 {
            // vt100 is costly: validate the model on every first frame and a fixed fraction of the others.
            if k == 0 { vt.process(&bytes); cross_check(&vt, &t)?; }
        }
        w.state(&t.cells);
    }
    Ok(())
}

fn c01(ctx: &Ctx) {
    ctx.assume("the terminal wraps at the right margin with deferred wrap and blanks the other half of a half-overwritten wide glyph (xterm behaviour)");
    ctx.assume("every frame starts from a cleared canvas, as the event loop does");
    let none = TextAttributes::default();
    let inks = vec![
        ink(None, None, none),
        ink(Some((255, 0, 0, 1.0)), None, none),
        ink(Some((255, 0, 0, 1.0)), Some((0, 0, 255, 1.0)), attrs(1)),
        ink(None, Some((0, 0, 255, 1.0)), attrs(8)),
        ink(None, Some((0, 255, 0, 0.5)), none),
    ];
    // Unique frames reachable with up to `m` draws on a small canvas.
    let frames = |cols: u16, rows: u16, strs: &[&'static str], ks: &[usize], m: u32| -> Vec<Vec<Draw>> {
        let mut ops = vec![];
        for s in strs {
            for &k in ks {
                for y in 0..rows as i32 {
                    for x in -1..cols as i32 {
                        ops.push(Draw { x, y, s, ink: k });
                    }
                }
            }
        }
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        for i in 0..seq_count(ops.len() as u64, m) {
            let f: Vec<Draw> = seq_at(i, ops.len() as u64, m).iter().map(|&k| ops[k].clone()).collect();
            let mut cv = Canvas::new(cols, rows);
            for d in &f {
                draw(&mut cv, &inks, d);
            }
            let key = format!("{:?}", cells(&cv));
            if seen.insert(hash_of(&key)) {
                out.push(f);
            }
        }
        out
    };
    // (a) all ordered pairs of frames: one row, wide glyphs everywhere.
    let strs: &[&str] = &["a", "漢", "b漢", " ", "e\u{301}", "\u{200b}", "\t"];
    let fs = frames(4, 1, strs, ctx.pick(&[0, 3][..], &[0, 1, 2, 3, 4][..]), 2);
    ctx.note("frames_4x1", fs.len().into());
    let n = fs.len() as u64;
    ctx.explore_procs("frame pairs on 4x1", n * n, |i| format!("{:?} -> {:?}", fs[(i / n) as usize], fs[(i % n) as usize]), |i, w| {
        play(4, 1, &[fs[(i / n) as usize].clone(), fs[(i % n) as usize].clone()], &inks, None, w)
    });
    // (b) two rows: wrap at the margin, cursor jumps between rows.
    let fs = frames(3, 2, &["a", "漢", "bcd"], ctx.pick(&[0, 2][..], &[0, 2, 3, 4][..]), ctx.pick(2, 2));
    ctx.note("frames_3x2", fs.len().into());
    let n = fs.len() as u64;
    ctx.explore_procs("frame pairs on 3x2", n * n, |i| format!("{:?} -> {:?}", fs[(i / n) as usize], fs[(i % n) as usize]), |i, w| {
        play(3, 2, &[fs[(i / n) as usize].clone(), fs[(i % n) as usize].clone()], &inks, None, w)
    });
    // (c) longer histories with an invalidation at every point.
    let fs = frames(3, 1, &["a", "漢", "b"], &[0, 3], ctx.pick(1, 1));
    let len = ctx.pick(4u32, 5);
    ctx.note("frames_3x1", fs.len().into());
    let n = fs.len() as u64;
    ctx.explore_procs("histories on 3x1 with a redraw", n.pow(len) * (len as u64 + 1), |i| {
        let inv = i % (len as u64 + 1);
        let mut m = Mix(i / (len as u64 + 1));
        format!("{:?} invalidate@{inv}", (0..len).map(|_| fs[m.pick(n)].clone()).collect::<Vec<_>>())
    }, |i, w| {
        let inv = (i % (len as u64 + 1)) as usize;
        let mut m = Mix(i / (len as u64 + 1));
        let f: Vec<_> = (0..len).map(|_| fs[m.pick(n)].clone()).collect();
        play(3, 1, &f, &inks, if inv == len as usize { None } else { Some(inv) }, w)
    });
    // (d) every style next to every style, drawn fresh and as a change.
    let mut many = vec![];
    for a in 0..64 {
        for fg in [None, Some((1, 2, 3, 1.0)), Some((4, 5, 6, 1.0))] {
            for bg in [None, Some((7, 8, 9, 1.0)), Some((1, 1, 2, 1.0))] {
                many.push(ink(fg, bg, attrs(a)));
            }
        }
    }
    let n = many.len() as u64;
    ctx.explore_procs("adjacent styles", n * n, |i| format!("{:?} | {:?}", many[(i / n) as usize], many[(i % n) as usize]), |i, w| {
        let (a, b) = ((i / n) as usize, (i % n) as usize);
        let f1 = vec![Draw { x: 0, y: 0, s: "p", ink: a }, Draw { x: 1, y: 0, s: "q", ink: b }];
        // the second frame changes only part of it, so the tracked style is exercised across a jump
        let f2 = vec![Draw { x: 0, y: 0, s: "p", ink: b }, Draw { x: 1, y: 0, s: "q", ink: b }, Draw { x: 2, y: 0, s: "r", ink: a }];
        play(3, 1, &[f1, f2], &many, None, w)
    });
    // (e) sizes, including ones whose area exceeds 16 bits.
    let sizes: Vec<(u16, u16)> = vec![(0, 0), (0, 3), (3, 0), (1, 1), (1, 5), (7, 1), (256, 255), (256, 256), (300, 220), (700, 100), (65535, 2), (2, 65535)];
    ctx.explore_procs("canvas sizes", sizes.len() as u64, |i| format!("{:?}", sizes[i as usize]), |i, w| {
        let (c, r) = sizes[i as usize];
        w.step();
        let mut cv = Canvas::new(c, r);
        ensure!(cv.size() == (c, r), "size {:?}", cv.size());
        for k in 0..3 {
            cv.clear();
            let (lx, ly) = (c as i32 - 1, r as i32 - 1);
            for (x, y) in [(0, 0), (lx, 0), (0, ly), (lx, ly)] {
                if k > 0 { cv.put_str(x, y, "z", None, None, none); }
            }
            let cs = cells(&cv);
            let (res, bytes) = grab_stdout(|| cv.flush());
            res.map_err(|e| e.to_string())?;
            if c > 0 && r > 0 && c < 800 {
                if k == 0 {
                    let mut t = Term::dirty(c as usize, r as usize);
                    t.feed(&bytes)?;
                    compare(&t, &expected(&cs, c as usize)?)?;
                } else {
                    for (x, y) in [(0, 0), (lx, 0), (0, ly), (lx, ly)] {
                        ensure!(cs[y as usize * c as usize + x as usize].symbol == "z", "corner {x},{y} not drawn");
                    }
                }
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C02
#[derive(Clone, Debug, PartialEq)]
struct MCell {
    sym: String,
    w: u8, // 0 = right half
    fg: Option<(u8, u8, u8)>,
    bg: Option<(u8, u8, u8)>,
    attrs: TextAttributes,
}

struct Model {
    cols: i32,
    rows: i32,
    cells: Vec<MCell>,
    clips: Vec<(i64, i64, i64, i64)>, // x0,y0,x1,y1
}

fn over(c: &RgbaColor, base: Option<(u8, u8, u8)>) -> (u8, u8, u8) {
    let b = base.unwrap_or((0, 0, 0));
    let b = RgbaColor::rgb(b.0, b.1, b.2);
    let r = if c.a < 1.0 { c.blend_over(&b) } else { c.clone() };
    (r.r, r.g, r.b)
}

impl Model {
    fn new(cols: i32, rows: i32) -> Self {
        let c = MCell { sym: " ".into(), w: 1, fg: None, bg: None, attrs: Default::default() };
        Model { cols, rows, cells: vec![c; (cols * rows) as usize], clips: vec![] }
    }
    fn clip(&self) -> (i64, i64, i64, i64) {
        self.clips.iter().fold((0, 0, self.cols as i64, self.rows as i64), |a, b| (a.0.max(b.0), a.1.max(b.1), a.2.min(b.2), a.3.min(b.3)))
    }
    fn push(&mut self, r: &Region) {
        self.clips.push((r.x as i64, r.y as i64, r.x as i64 + r.width as i64, r.y as i64 + r.height as i64));
    }
    fn text(&mut self, x: i32, y: i32, s: &str, k: &Ink) {
        let c = self.clip();
        let mut x = x as i64;
        for g in s.graphemes(true) {
            let w = unicode_display_width::width(g) as i64;
            let inside = (y as i64) >= c.1 && (y as i64) < c.3 && x >= c.0 && x + w <= c.2;
            if inside {
                self.glyph(x as usize, y as usize, g, w as usize, k);
            }
            x += w;
        }
    }
    fn glyph(&mut self, x: usize, y: usize, g: &str, w: usize, k: &Ink) {
        let row = y * self.cols as usize;
        let tint = k.bg.as_ref().filter(|b| b.a > 0.0);
        let veil = g == " " && k.fg.is_none() && k.attrs == TextAttributes::default() && tint.is_some_and(|b| b.a < 1.0);
        if veil {
            let c = &mut self.cells[row + x];
            c.bg = Some(over(tint.unwrap(), c.bg));
            return;
        }
        // halves of wide glyphs that would be left over become blanks
        let halves: Vec<usize> = (0..self.cols as usize).filter(|&i| self.cells[row + i].w == 2).flat_map(|i| {
            let (a, b) = (i >= x && i < x + w, i + 1 >= x && i + 1 < x + w);
            match (a, b) { (true, false) => vec![i + 1], (false, true) => vec![i], _ => vec![] }
        }).collect();
        for i in halves {
            let c = &mut self.cells[row + i];
            c.sym = " ".into();
            c.w = 1;
        }
        let first = g.chars().next().unwrap();
        let hidden = first.is_control() || unicode_width_zero(first);
        for j in 0..w {
            let old = self.cells[row + x + j].bg;
            let fg = k.fg.as_ref().map(|c| over(c, None));
            self.cells[row + x + j] = MCell {
                sym: if hidden { " ".into() } else if j == 0 { g.into() } else { String::new() },
                w: if hidden { 1 } else if j == 0 { w as u8 } else { 0 },
                fg, bg: match tint { Some(b) => Some(over(b, old)), None => old }, attrs: k.attrs,
            };
        }
    }
}

fn c02(ctx: &Ctx) {
    ctx.assume("colour blending itself is property C30; the model reuses the colour type's blend");
    let none = TextAttributes::default();
    let inks = vec![
        ink(None, None, none),
        ink(Some((255, 0, 0, 1.0)), Some((0, 0, 255, 1.0)), attrs(1)),
        ink(None, Some((0, 200, 0, 0.5)), none),
        ink(Some((90, 80, 70, 0.5)), Some((9, 9, 9, 0.0)), attrs(32)),
    ];
    #[derive(Clone, Debug)]
    enum Op {
        Push(Region),
        Pop,
        Str(i32, i32, &'static str, usize),
        Char(i32, i32, char, usize),
        Strip(i32, i32),
        Clear,
    }
    let (cols, rows) = (4i32, 2i32);
    let strip = Strip::from_segments(vec![
        Segment::new("p漢"),
        Segment::styled(" q", Style { fg: Some(RgbaColor::rgb(1, 2, 3)), bg: Some(RgbaColor::rgb(4, 5, 6)), bold: true, ..Default::default() }),
    ]);
    let mut ops = vec![Op::Pop, Op::Clear];
    for r in [Region::new(1, 0, 2, 1), Region::new(0, 0, 3, 2), Region::new(-2, -1, 4, 3), Region::new(2, 1, 9, 9), Region::new(5, 0, 2, 2), Region::new(1, 0, 0, 2)] {
        ops.push(Op::Push(r));
    }
    for k in 0..inks.len() {
        for s in ["ab", "漢", " ", "c漢d"] {
            for x in [-1, 0, 1, 2, 3] {
                for y in [0, 1] {
                    if y == 1 && k > 1 { continue; }
                    ops.push(Op::Str(x, y, s, k));
                }
            }
        }
    }
    for (x, y) in [(-1, 0), (0, -1), (3, 0), (3, 1), (4, 1), (0, 2), (1, 1)] {
        ops.push(Op::Char(x, y, '漢', 1));
        ops.push(Op::Char(x, y, 'z', 0));
    }
    ops.push(Op::Str(1, 0, "x\u{1b}y", 0));
    ops.push(Op::Str(1, 0, "\u{200b}y", 0));
    ops.push(Op::Str(0, 0, "e\u{301}\t", 1));
    for x in [-30000, -2, -1, 0, 1, 30000] {
        ops.push(Op::Strip(x, 0));
    }
    ops.push(Op::Strip(0, -1));
    ops.push(Op::Strip(0, 2));
    let n = ops.len() as u64;
    ctx.note("operations", n.into());
    let depth = ctx.pick(3, 4);
    ctx.explore("every drawing sequence on 4x2", n.pow(depth), |i| {
        let mut m = Mix(i);
        format!("{:?}", (0..depth).map(|_| m.of(&ops).clone()).collect::<Vec<_>>())
    }, |i, w| {
        let mut m = Mix(i);
        let seq: Vec<&Op> = (0..depth).map(|_| m.of(&ops)).collect();
        let mut cv = Canvas::new(cols as u16, rows as u16);
        let mut md = Model::new(cols, rows);
        for op in seq {
            w.step();
            match op {
                Op::Push(r) => { cv.push_clip(*r); md.push(r) }
                Op::Pop => { cv.pop_clip(); md.clips.pop(); }
                Op::Clear => { cv.clear(); md = Model::new(cols, rows); }
                Op::Str(x, y, s, k) => {
                    let t = &inks[*k];
                    cv.put_str(*x, *y, s, t.fg.clone(), t.bg.clone(), t.attrs);
                    md.text(*x, *y, s, t);
                }
                Op::Char(x, y, c, k) => {
                    let t = &inks[*k];
                    cv.put_char(*x, *y, *c, t.fg.clone(), t.bg.clone(), t.attrs);
                    md.text(*x, *y, &c.to_string(), t);
                }
                Op::Strip(x, y) => {
                    cv.render_strip(&strip, *x, *y);
                    md.text(*x, *y, "p漢", &ink(None, None, none));
                    md.text(*x + 3, *y, " q", &ink(Some((1, 2, 3, 1.0)), Some((4, 5, 6, 1.0)), attrs(1)));
                }
            }
            let cs = cells(&cv);
            expected(&cs, cols as usize).map_err(|e| format!("after {op:?}: {e}"))?;
            for (k, (a, b)) in cs.iter().zip(&md.cells).enumerate() {
                let sym = if a.continuation { "" } else { a.symbol.as_str() };
                let wd = if a.continuation { 0 } else { a.width };
                ensure!(sym == b.sym && wd == b.w && rgb(&a.bg)? == b.bg && (rgb(&a.fg)? == b.fg) && a.attrs == b.attrs,
                    "after {op:?}: cell {k} is {a:?}, expected {b:?}");
                let (x, y) = (k as i32 % cols, k as i32 / cols);
                let ch = if a.continuation { ' ' } else { a.symbol.chars().next().unwrap() };
                ensure!(cv.get_char(x, y) == ch, "get_char({x},{y})");
            }
            w.state(&format!("{:?}", md.cells));
        }
        Ok(())
    });
    // Region algebra.
    let vals = [-3i32, 0, 1, 2, 5, i32::MAX, i32::MIN, i32::MAX - 1];
    let sz = [-1i32, 0, 1, 3, i32::MAX];
    let n = (vals.len() * vals.len() * sz.len() * sz.len()) as u64;
    let reg = move |i: u64| { let mut m = Mix(i); Region::new(*m.of(&vals), *m.of(&vals), *m.of(&sz), *m.of(&sz)) };
    ctx.explore("region pairs", n * n, move |i| format!("{:?} {:?}", reg(i / n), reg(i % n)), move |i, w| {
        let (a, b) = (reg(i / n), reg(i % n));
        w.step();
        let x = a.intersection(&b);
        ensure!(x == b.intersection(&a), "intersection is not symmetric");
        ensure!(x.width >= 0 && x.height >= 0, "negative size");
        // The far edge saturates at the largest coordinate, so exclude points on it.
        for px in [-3, -1, 0, 1, 2, 4, 7] {
            for py in [-3, 0, 1, 2, 4, 7] {
                ensure!(x.contains_point(px, py) == (a.contains_point(px, py) && b.contains_point(px, py)), "point {px},{py}: {x:?}");
            }
        }
        w.outcome(&format!("{x:?}"));
        Ok(())
    });
}
