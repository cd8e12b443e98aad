//! C03 strip algebra, C04 wrapping.
use mc::*;
use std::collections::{BTreeMap, HashMap};
use tcss::types::text::AlignHorizontal;
use tcss::types::{RgbaColor, TextOverflow, TextWrap};
use textual::content::Content;
use textual::segment::{Segment, Style};
use textual::strip::Strip;
use unicode_segmentation::UnicodeSegmentation;

fn main() {
    main_with(&[("C03", c03), ("C04", c04)]);
}

fn gw(g: &str) -> usize {
    unicode_display_width::width(g) as usize
}

/// One screen column of a line.
#[derive(Clone, Debug, PartialEq)]
struct Col {
    /// The grapheme starting here; "" for the right half of a wide one.
    g: String,
    style: Style,
    meta: BTreeMap<String, String>,
}

fn cols_of(strip: &Strip) -> Vec<Col> {
    let mut v = vec![];
    for s in strip.segments() {
        let style = s.style().cloned().unwrap_or_default();
        let meta: BTreeMap<_, _> = s.meta().iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        for g in s.text().graphemes(true) {
            let w = gw(g);
            for k in 0..w {
                v.push(Col { g: if k == 0 { g.into() } else { String::new() }, style: style.clone(), meta: meta.clone() });
            }
        }
    }
    v
}

fn space(c: &Col) -> Col {
    Col { g: " ".into(), ..c.clone() }
}

fn m_crop(v: &[Col], a: usize, b: usize) -> Vec<Col> {
    let b = b.min(v.len());
    if a >= b {
        return vec![];
    }
    let mut r: Vec<Col> = v[a..b].to_vec();
    if r[0].g.is_empty() {
        r[0] = space(&r[0]);
    }
    if b < v.len() && v[b].g.is_empty() {
        let k = r.len() - 1;
        r[k] = space(&r[k]);
    }
    r
}

fn pad(n: usize, st: &Option<Style>) -> Vec<Col> {
    vec![Col { g: " ".into(), style: st.clone().unwrap_or_default(), meta: BTreeMap::new() }; n]
}

#[derive(Clone, Debug)]
enum Op {
    Crop(usize, usize),
    Adjust(usize, Option<Style>),
    Align(AlignHorizontal, usize),
    Justify(usize),
    Apply(Style),
    Simplify,
    DivideJoin(Vec<usize>),
    DividePick(Vec<usize>, usize),
    Tint(RgbaColor),
    Opacity(f64),
    Hatch,
    JoinSelf,
}

fn lerp_tint(c: &RgbaColor, t: &RgbaColor) -> RgbaColor {
    c.tint(t)
}

fn c03(ctx: &Ctx) {
    ctx.assume("display width of a grapheme is the unicode-display-width crate's");
    let red = Style::with_fg(RgbaColor::rgb(255, 0, 0));
    let mut bold = Style::with_bg(RgbaColor::rgb(0, 0, 255));
    bold.bold = true;
    let meta1: HashMap<String, String> = [("@click".to_string(), "x".to_string())].into();
    let texts = ["a", "漢", "e\u{301}b", "", "b 漢", "c ", "👩\u{200d}🚀d"];
    let mut segs: Vec<Segment> = vec![];
    for t in texts {
        segs.push(Segment::new(t));
        segs.push(Segment::styled(t, red.clone()));
        segs.push(Segment::styled(t, bold.clone()).with_meta(meta1.clone()));
    }
    segs.push(Segment::new("xy").with_meta(meta1.clone()));
    let nseg = segs.len() as u64;
    let maxw = 9usize;
    let mut ops: Vec<Op> = vec![Op::Simplify];
    for a in 0..=5 {
        for b in 0..=7 {
            ops.push(Op::Crop(a, b));
        }
    }
    for l in 0..=8 {
        ops.push(Op::Adjust(l, if l % 2 == 0 { None } else { Some(red.clone()) }));
    }
    for al in [AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right] {
        for w in 0..=8 {
            ops.push(Op::Align(al, w));
        }
    }
    for w in 0..=9 {
        ops.push(Op::Justify(w));
    }
    ops.push(Op::Apply(red.clone()));
    ops.push(Op::Apply(bold.clone()));
    for c in [vec![], vec![0], vec![1], vec![2], vec![3], vec![1, 2], vec![2, 4], vec![1, 3, 5], vec![2, 2], vec![9], vec![3, 1]] {
        for k in 0..3 {
            if k <= c.len() {
                ops.push(Op::DividePick(c.clone(), k));
            }
        }
        ops.push(Op::DivideJoin(c));
    }
    ops.push(Op::Tint(RgbaColor::rgba(10, 20, 30, 0.5)));
    ops.push(Op::Tint(RgbaColor::rgba(10, 20, 30, 0.0)));
    ops.push(Op::Opacity(0.0));
    ops.push(Op::Opacity(1.0));
    ops.push(Op::Opacity(0.5));
    ops.push(Op::Hatch);
    ops.push(Op::JoinSelf);
    let nops = ops.len() as u64;
    ctx.note("operations", nops.into());

    let run = |strip0: Strip, seq: &[&Op], w: &mut W| -> Result<(), String> {
        let mut strip = strip0;
        let mut model = cols_of(&strip);
        ensure!(strip.cell_length() == model.len(), "initial cell_length {} for {} columns", strip.cell_length(), model.len());
        for op in seq {
            w.step();
            let before_text = strip.text();
            match op {
                Op::Crop(a, b) => {
                    model = m_crop(&model, *a, *b);
                    strip = strip.crop(*a, *b);
                }
                Op::Adjust(l, st) => {
                    let n = model.len();
                    if n > *l {
                        model = m_crop(&model, 0, *l);
                    } else {
                        model.extend(pad(l - n, st));
                    }
                    strip = strip.adjust_cell_length(*l, st.clone());
                    ensure!(strip.cell_length() == *l, "{op:?} gives {} cells", strip.cell_length());
                }
                Op::Align(al, wd) => {
                    let st = Some(bold.clone());
                    let n = model.len();
                    if n >= *wd {
                        model = m_crop(&model, 0, *wd);
                    } else {
                        let gap = wd - n;
                        let l = match al {
                            AlignHorizontal::Left => 0,
                            AlignHorizontal::Center => gap / 2,
                            AlignHorizontal::Right => gap,
                        };
                        let mut m = pad(l, &st);
                        m.extend(model.clone());
                        m.extend(pad(gap - l, &st));
                        model = m;
                    }
                    strip = strip.text_align(*al, *wd, st);
                    ensure!(strip.cell_length() == *wd, "{op:?} gives {} cells", strip.cell_length());
                }
                Op::Justify(wd) => {
                    let n = model.len();
                    let out = strip.justify(*wd, None);
                    ensure!(out.cell_length() == *wd, "{op:?} gives {} cells", out.cell_length());
                    if n >= *wd {
                        model = m_crop(&model, 0, *wd);
                    } else {
                        // Specified: exactly the width, the same glyphs in order with their style
                        // and metadata, no gap lost, gaps differing by at most one cell of growth.
                        let got = cols_of(&out);
                        let solid = |v: &[Col]| v.iter().filter(|c| c.g != " ").cloned().collect::<Vec<_>>();
                        ensure!(solid(&got) == solid(&model), "{op:?}: glyphs changed: {got:?}");
                        let gaps = |v: &[Col]| {
                            let mut r = vec![];
                            let mut k = 0;
                            for c in v {
                                if c.g == " " { k += 1 } else { r.push(k); k = 0 }
                            }
                            r.push(k);
                            r
                        };
                        let (a, b) = (gaps(&model), gaps(&got));
                        let spaces: usize = a.iter().sum();
                        if spaces == 0 {
                            let mut m = model.clone();
                            m.extend(pad(wd - n, &None));
                            ensure!(got == m, "{op:?} without a gap must pad on the right: {got:?}");
                        } else {
                            let extra = wd - n;
                            let (lo, hi) = (extra / spaces, extra.div_ceil(spaces));
                            for (x, y) in a.iter().zip(&b) {
                                ensure!(*y >= x * (1 + lo) && *y <= x * (1 + hi), "{op:?}: gaps {a:?} became {b:?}");
                            }
                            ensure!(got.iter().filter(|c| c.g == " ").all(|c| model.iter().any(|d| d == c)),
                                "{op:?}: a gap lost its style or metadata");
                        }
                        model = got;
                    }
                    strip = out;
                }
                Op::Apply(st) => {
                    for c in &mut model {
                        c.style = Style {
                            fg: st.fg.clone().or(c.style.fg.clone()),
                            bg: st.bg.clone().or(c.style.bg.clone()),
                            bold: c.style.bold || st.bold,
                            ..c.style.clone()
                        };
                    }
                    strip = strip.apply_style(st);
                }
                Op::Simplify => {
                    let k = strip.segments().len();
                    strip = strip.simplify();
                    ensure!(strip.segments().len() <= k, "simplify grew the strip");
                    ensure!(strip.text() == before_text, "simplify changed the text to {:?}", strip.text());
                }
                Op::DivideJoin(c) | Op::DividePick(c, _) => {
                    let parts = strip.divide(c);
                    let mut bounds = vec![];
                    let mut last = 0;
                    for &x in c {
                        if x > last && x <= model.len() {
                            bounds.push((last, x));
                            last = x;
                        }
                    }
                    if last < model.len() || c.is_empty() {
                        bounds.push((last, model.len()));
                    }
                    let want: Vec<Vec<Col>> = bounds.iter().map(|(a, b)| m_crop(&model, *a, *b)).collect();
                    let got: Vec<Vec<Col>> = parts.iter().map(cols_of).collect();
                    ensure!(got == want, "divide {c:?} gives {got:?}, expected {want:?}");
                    match op {
                        Op::DividePick(_, k) => {
                            if *k < parts.len() {
                                strip = parts[*k].clone();
                                model = want[*k].clone();
                            }
                        }
                        _ => {
                            strip = Strip::join(parts);
                            model = want.concat();
                        }
                    }
                }
                Op::Tint(t) => {
                    for c in &mut model {
                        if t.a != 0.0 {
                            c.style.fg = c.style.fg.as_ref().map(|x| lerp_tint(x, t));
                            c.style.bg = c.style.bg.as_ref().map(|x| lerp_tint(x, t));
                        }
                    }
                    strip = strip.apply_tint(t);
                    ensure!(strip.text() == before_text, "tint changed the text");
                }
                Op::Opacity(o) => {
                    let n = strip.cell_length();
                    strip = strip.apply_text_opacity(*o, None);
                    ensure!(strip.cell_length() == n, "opacity changed the width");
                    let got = cols_of(&strip);
                    for (k, (a, b)) in model.iter().zip(&got).enumerate() {
                        ensure!(a.style.bg == b.style.bg && a.meta == b.meta, "opacity changed background or metadata of cell {k}");
                        if *o <= 0.0 {
                            ensure!(b.g == " ", "opacity 0 shows {:?}", b.g);
                        } else {
                            ensure!(a.g == b.g, "opacity changed cell {k}");
                        }
                        if *o >= 1.0 {
                            ensure!(a == b, "opacity 1 changed cell {k}");
                        }
                    }
                    model = got;
                }
                Op::Hatch => {
                    let col = RgbaColor::rgb(1, 2, 3);
                    strip = strip.apply_hatch('╱', &col, 1.0);
                    let got = cols_of(&strip);
                    ensure!(got.len() == model.len(), "hatch changed the width");
                    for (k, (a, b)) in model.iter().zip(&got).enumerate() {
                        let want = if a.g == " " { "╱" } else { &a.g };
                        ensure!(b.g == want && b.meta == a.meta && b.style.bg == a.style.bg, "hatch cell {k}: {b:?}");
                        if a.g == " " {
                            ensure!(b.style.fg.as_ref() == Some(&col), "hatch colour missing at {k}");
                        }
                    }
                    model = got;
                }
                Op::JoinSelf => {
                    model = [model.clone(), model.clone()].concat();
                    strip = Strip::join([strip.clone(), strip]);
                }
            }
            let got = cols_of(&strip);
            ensure!(got == model, "after {op:?}: cells {got:?}, expected {model:?}");
            ensure!(strip.cell_length() == model.len(), "after {op:?}: cell_length {} for {} columns", strip.cell_length(), model.len());
            for s in strip.segments() {
                ensure!(s.cell_length() == gw(s.text()), "after {op:?}: segment {:?} claims {} cells", s.text(), s.cell_length());
            }
            w.state(&format!("{model:?}"));
        }
        Ok(())
    };

    // One operation on every strip of up to 3 segments; two on 2 segments; three on one.
    let spaces: Vec<(u32, u32)> = ctx.pick(vec![(3, 1), (2, 2)], vec![(4, 1), (3, 2), (1, 3)]);
    for (ns, no) in spaces {
        let a = seq_count(nseg, ns);
        let b = nops.pow(no);
        let dec = |i: u64| {
            let s = seq_at(i / b, nseg, ns);
            let mut k = i % b;
            let o: Vec<usize> = (0..no).map(|_| { let r = (k % nops) as usize; k /= nops; r }).collect();
            (s, o)
        };
        let show = |i: u64| {
            let (s, o) = dec(i);
            format!("{:?} | {:?}", s.iter().map(|&k| (segs[k].text(), segs[k].style().is_some(), segs[k].meta().len())).collect::<Vec<_>>(),
                o.iter().map(|&k| &ops[k]).collect::<Vec<_>>())
        };
        ctx.explore(&format!("strips of up to {ns} segments x {no} operations"), a * b, show, |i, w| {
            let (s, o) = dec(i);
            let strip = Strip::from_segments(s.iter().map(|&k| segs[k].clone()).collect());
            if strip.cell_length() > maxw { /* kept: widths above the cut grid still checked */ }
            run(strip, &o.iter().map(|&k| &ops[k]).collect::<Vec<_>>(), w)
        });
    }
    // Segment::split_at on every text and cut.
    let al = ["a", "漢", "e\u{301}", " "];
    let n = seq_count(4, 6) * 14;
    ctx.explore("segment split", n, |i| format!("{:?}@{}", seq_at(i / 14, 4, 6), i % 14), |i, w| {
        let t: String = seq_at(i / 14, 4, 6).iter().map(|&k| al[k]).collect();
        let cut = (i % 14) as usize;
        w.step();
        let s = Segment::styled(t.clone(), red.clone()).with_meta(meta1.clone());
        let (l, r) = s.split_at(cut);
        ensure!(format!("{}{}", l.text(), r.text()) == t, "split loses text: {:?} {:?}", l.text(), r.text());
        for x in [&l, &r] {
            ensure!(x.cell_length() == gw(x.text()), "half {:?} claims {}", x.text(), x.cell_length());
            ensure!(x.style() == s.style() && x.meta() == s.meta(), "half loses style or metadata");
        }
        let want = cut.min(s.cell_length());
        ensure!(l.cell_length() >= want && l.cell_length() <= want + 1, "left half {:?} for cut {cut}", l.text());
        if l.cell_length() == want + 1 {
            ensure!(l.text().graphemes(true).next_back().is_some_and(|g| gw(g) == 2), "left half {:?} for cut {cut}", l.text());
        }
        w.outcome(&(l.text().to_string(), r.text().to_string()));
        Ok(())
    });
}

// ---------------------------------------------------------------- C04
fn c04(ctx: &Ctx) {
    ctx.assume("whitespace between words may be collapsed or dropped at a break; only visible characters must survive");
    let toks: Vec<&str> = vec!["a", "bb", "漢", "e\u{301}", " ", "\n", "[b]", "[/]", "[@click=q]"];
    let l = ctx.pick(6, 7);
    let n = seq_count(toks.len() as u64, l);
    let dec = |i: u64| -> String { seq_at(i, toks.len() as u64, l).iter().map(|&k| toks[k]).collect() };
    let maxw = ctx.pick(6usize, 8);
    ctx.note("widths", format!("0..={maxw} x wrap/nowrap x fold/clip/ellipsis").into());
    let mut base = Style::with_fg(RgbaColor::rgb(9, 8, 7));
    base.italic = true;
    ctx.explore("every short text", n, |i| format!("{:?}", dec(i)), |i, w| {
        let src = dec(i);
        let mut c = Content::from_markup(&src).map_err(|e| format!("markup rejected: {e}"))?;
        // Alternate between unstyled and uniformly styled content.
        if i % 2 == 1 {
            c = c.with_style(base.clone());
        }
        let text = c.text().to_string();
        let styled = c.lines();
        let src_lines: Vec<&str> = text.split('\n').collect();
        ensure!(styled.len() == src_lines.len(), "lines(): {} for {:?}", styled.len(), text);
        ensure!(c.height() == src_lines.len(), "height {} for {} lines", c.height(), src_lines.len());
        for (s, t) in styled.iter().zip(&src_lines) {
            ensure!(s.text() == *t, "lines(): {:?} for {t:?}", s.text());
        }
        ensure!(c.cell_length() == src_lines.iter().map(|x| gw(x)).max().unwrap_or(0), "cell_length {}", c.cell_length());
        // What each visible grapheme looks like, per source line.
        let vis = |v: Vec<Col>| -> Vec<Col> { v.into_iter().filter(|c| !c.g.is_empty() && c.g != " ").collect() };
        let want: Vec<Vec<Col>> = styled.iter().map(|s| vis(cols_of(s))).collect();
        for width in 0..=maxw {
            for wrap in [TextWrap::Wrap, TextWrap::NoWrap] {
                for over in [TextOverflow::Fold, TextOverflow::Clip, TextOverflow::Ellipsis] {
                    w.step();
                    let out = c.wrap_with_line_end_overflow(width, over, wrap);
                    let ctxs = format!("width {width} {wrap:?} {over:?}");
                    let shown = || out.iter().map(|l| (l.strip.text(), l.line_end)).collect::<Vec<_>>();
                    if width == 0 {
                        ensure!(out.len() == 1 && out[0].strip.cell_length() == 0, "{ctxs}: {:?}", shown());
                        continue;
                    }
                    w.outcome(&shown());
                    // Exactly one final piece per source line, in order.
                    let mut groups: Vec<Vec<&Strip>> = vec![];
                    let mut cur = vec![];
                    for l in &out {
                        cur.push(&l.strip);
                        if l.line_end {
                            groups.push(std::mem::take(&mut cur));
                        }
                    }
                    ensure!(cur.is_empty() && groups.len() == src_lines.len(), "{ctxs}: {} source lines, got {:?}", src_lines.len(), shown());
                    for (gi, g) in groups.iter().enumerate() {
                        for s in g.iter() {
                            let one = s.text().graphemes(true).count() <= 1;
                            ensure!(s.cell_length() <= width || one, "{ctxs}: {:?} is {} wide", s.text(), s.cell_length());
                            ensure!(s.cell_length() == gw(&s.text()), "{ctxs}: {:?} claims {}", s.text(), s.cell_length());
                        }
                        let got: Vec<Col> = g.iter().flat_map(|s| vis(cols_of(s))).collect();
                        let src_line = src_lines[gi];
                        match (wrap, over) {
                            (TextWrap::Wrap, TextOverflow::Ellipsis) | (TextWrap::NoWrap, TextOverflow::Ellipsis) => {
                                if wrap == TextWrap::NoWrap {
                                    ensure!(g.len() == 1, "{ctxs}: {:?}", shown());
                                    if gw(src_line) <= width {
                                        ensure!(got == want[gi], "{ctxs}: {src_line:?} fits but became {:?}", g[0].text());
                                    } else {
                                        ensure!(g[0].cell_length() == width, "{ctxs}: {src_line:?} became {:?}", g[0].text());
                                        ensure!(got.last().is_some_and(|c| c.g == "…"), "{ctxs}: no ellipsis in {:?}", g[0].text());
                                        let k = got.len() - 1;
                                        ensure!(got[..k] == want[gi][..k], "{ctxs}: {src_line:?} became {:?}", g[0].text());
                                    }
                                } else if width >= 2 {
                                    ensure!(got == want[gi], "{ctxs}: {src_line:?} became {:?}", shown());
                                }
                            }
                            (TextWrap::NoWrap, TextOverflow::Clip) => {
                                ensure!(g.len() == 1, "{ctxs}: {:?}", shown());
                                let m = m_crop(&cols_of(&styled[gi]), 0, width);
                                ensure!(cols_of(g[0]) == m, "{ctxs}: {src_line:?} clipped to {:?}", g[0].text());
                            }
                            _ => {
                                ensure!(got == want[gi], "{ctxs}: {src_line:?} became {:?}", shown());
                                ensure!(g.len() == 1 || g.iter().all(|s| s.cell_length() > 0), "{ctxs}: an empty line in {:?}", shown());
                                if wrap == TextWrap::NoWrap {
                                    let j: String = g.iter().map(|s| s.text()).collect();
                                    ensure!(j == src_line, "{ctxs}: folded to {j:?}");
                                } else {
                                    // Breaks: between words, or inside a word longer than the width.
                                    let words: Vec<&str> = src_line.split_whitespace().collect();
                                    let mut pieces: Vec<Vec<String>> = vec![]; // words per output line
                                    for s in g.iter() {
                                        pieces.push(s.text().split_whitespace().map(String::from).collect());
                                    }
                                    let mut wi = 0;
                                    let mut rest = words.first().copied().unwrap_or("");
                                    for (li, p) in pieces.iter().enumerate() {
                                        for (pi, piece) in p.iter().enumerate() {
                                            ensure!(rest.starts_with(piece.as_str()), "{ctxs}: {src_line:?} became {:?}", shown());
                                            let whole = piece == words[wi] ;
                                            if !whole {
                                                ensure!(gw(words[wi]) > width, "{ctxs}: word {:?} broken though it fits: {:?}", words[wi], shown());
                                            }
                                            if whole && pi == 0 && li > 0 {
                                                // the break before it was needed
                                                let prev = pieces[li - 1].last().map(|s| s.as_str()).unwrap_or("");
                                                if wi > 0 && prev == words[wi - 1] {
                                                    let gap = {
                                                        // largest gap the renderer may keep: the source gap
                                                        let mut pos = 0;
                                                        let mut gp = 1;
                                                        for (k, x) in words.iter().enumerate() {
                                                            let at = pos + src_line[pos..].find(x).unwrap();
                                                            if k == wi { gp = gw(&src_line[pos..at]); }
                                                            pos = at + x.len();
                                                        }
                                                        gp
                                                    };
                                                    ensure!(g[li - 1].cell_length() + gap + gw(piece) > width,
                                                        "{ctxs}: {piece:?} would have fitted on the line before: {:?}", shown());
                                                }
                                            }
                                            rest = &rest[piece.len()..];
                                            if rest.is_empty() {
                                                wi += 1;
                                                rest = words.get(wi).copied().unwrap_or("");
                                            } else {
                                                ensure!(pi + 1 == p.len(), "{ctxs}: space inside a word: {:?}", shown());
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            // The convenience forms agree with the configurable one.
            let a: Vec<String> = c.wrap(width).iter().map(|s| s.text()).collect();
            let b: Vec<String> = c.wrap_with_line_end_overflow(width, TextOverflow::Fold, TextWrap::Wrap).iter().map(|s| s.strip.text()).collect();
            let d: Vec<String> = c.wrap_with_line_end(width).iter().map(|s| s.strip.text()).collect();
            ensure!(a == b && b == d, "wrap variants disagree at width {width}");
        }
        w.state(&text);
        Ok(())
    });
}
