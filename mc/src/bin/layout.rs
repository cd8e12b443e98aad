//! C12 linear layouts, C13 grid layout, C14 docks, absolute children, offsets, layers, alignment.
use mc::*;
use std::cmp::Ordering;
use tcss::types::geometry::{Scalar, Spacing, Unit};
use tcss::types::*;
use textual::canvas::{Region, Size};
use textual::layouts::{self, GridLayout, HorizontalLayout, Layout as _, LayoutChild, LayoutNode, VerticalLayout, Viewport, WidgetPlacement};

// ---------------------------------------------------------------------------
// Exact arithmetic for the reference models.

#[derive(Clone, Copy, Debug)]
struct Q(i128, i128);
fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs().max(1) } else { gcd(b, a % b) }
}
impl Q {
    fn new(n: i128, d: i128) -> Q {
        let s = if d < 0 { -1 } else { 1 };
        let g = gcd(n, d);
        Q(s * n / g, s * d / g)
    }
    fn int(n: i32) -> Q {
        Q(n as i128, 1)
    }
    fn floor(self) -> i32 {
        self.0.div_euclid(self.1) as i32
    }
    fn trunc(self) -> i32 {
        (self.0 / self.1) as i32
    }
    /// Half away from zero, like f64::round.
    fn round(self) -> i32 {
        let h = Q(self.0.abs(), self.1) + Q(1, 2);
        h.floor() * if self.0 < 0 { -1 } else { 1 }
    }
}
impl std::ops::Add for Q {
    type Output = Q;
    fn add(self, o: Q) -> Q {
        Q::new(self.0 * o.1 + o.0 * self.1, self.1 * o.1)
    }
}
impl std::ops::Sub for Q {
    type Output = Q;
    fn sub(self, o: Q) -> Q {
        self + Q(-o.0, o.1)
    }
}
impl std::ops::Mul for Q {
    type Output = Q;
    fn mul(self, o: Q) -> Q {
        Q::new(self.0 * o.0, self.1 * o.1)
    }
}
impl std::ops::Div for Q {
    type Output = Q;
    fn div(self, o: Q) -> Q {
        Q::new(self.0 * o.1, self.1 * o.0)
    }
}
impl PartialEq for Q {
    fn eq(&self, o: &Q) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Q {}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Q {
    fn cmp(&self, o: &Q) -> Ordering {
        (self.0 * o.1).cmp(&(o.0 * self.1))
    }
}

// ---------------------------------------------------------------------------
// Children.

/// A length in tenths of its unit.
type Len = (i32, Unit);
fn q(l: Len) -> Q {
    Q::new(l.0 as i128, 10)
}
fn sc(l: Len) -> Scalar {
    Scalar { value: l.0 as f64 / 10.0, unit: l.1 }
}
const FILL: u16 = u16::MAX;

#[derive(Clone, Debug)]
struct Kid {
    w: Option<Len>,
    h: Option<Len>,
    minw: Option<Len>,
    maxw: Option<Len>,
    minh: Option<Len>,
    maxh: Option<Len>,
    /// top, right, bottom, left
    margin: [i32; 4],
    /// content-box with a border and padding (chrome 2 + 3 across, 2 + 1 down)
    content_box: bool,
    chrome: bool,
    desired: (u16, u16),
    /// cells of content: the height for a width is the number of lines it takes
    area: u16,
    dock: Option<Dock>,
    abs: bool,
    off: (Option<Len>, Option<Len>),
    layer: Option<&'static str>,
    span: (u16, u16),
}
const KID: Kid = Kid { w: None, h: None, minw: None, maxw: None, minh: None, maxh: None, margin: [0; 4], content_box: false, chrome: false, desired: (4, 2), area: 11, dock: None, abs: false, off: (None, None), layer: None, span: (1, 1) };

fn show(k: &Kid) -> String {
    let mut s = String::new();
    let l = |n: &str, v: &Option<Len>| v.map(|(x, u)| format!("{n}={}{} ", x as f64 / 10.0, match u { Unit::Cells => "", Unit::Percent => "%", Unit::Width => "w", Unit::Height => "h", Unit::ViewWidth => "vw", Unit::ViewHeight => "vh", Unit::Fraction => "fr", Unit::Auto => "auto" })).unwrap_or_default();
    s += &(l("w", &k.w) + &l("h", &k.h) + &l("minw", &k.minw) + &l("maxw", &k.maxw) + &l("minh", &k.minh) + &l("maxh", &k.maxh) + &l("dx", &k.off.0) + &l("dy", &k.off.1));
    if k.margin != [0; 4] { s += &format!("margin={:?} ", k.margin); }
    if k.content_box { s += "content-box "; }
    if k.chrome { s += "border+padding "; }
    if k.desired != (4, 2) { s += &format!("desired={:?} ", k.desired); }
    if let Some(d) = k.dock { s += &format!("dock={d:?} "); }
    if k.abs { s += "absolute "; }
    if let Some(d) = k.layer { s += &format!("layer={d} "); }
    if k.span != (1, 1) { s += &format!("span={:?} ", k.span); }
    format!("{{{}}}", s.trim_end())
}
fn shows(k: &[Kid]) -> String {
    k.iter().map(show).collect::<Vec<_>>().join(" ")
}

struct Node(Kid);
fn lines(area: u16, w: i32) -> i32 {
    let w = w.clamp(0, 65535);
    if w == 0 { area as i32 } else { (area as i32 + w - 1) / w }
}
impl LayoutNode for Node {
    fn desired_size(&self) -> Size {
        Size::new(self.0.desired.0, self.0.desired.1)
    }
    fn intrinsic_height_for_width(&self, w: u16) -> u16 {
        lines(self.0.area, w as i32) as u16
    }
}

fn style_of(k: &Kid) -> ComputedStyle {
    let mut s = ComputedStyle::default();
    s.width = k.w.map(sc);
    s.height = k.h.map(sc);
    s.min_width = k.minw.map(sc);
    s.max_width = k.maxw.map(sc);
    s.min_height = k.minh.map(sc);
    s.max_height = k.maxh.map(sc);
    let c = |n: i32| Scalar::cells(n as f64);
    s.margin = Spacing { top: c(k.margin[0]), right: c(k.margin[1]), bottom: c(k.margin[2]), left: c(k.margin[3]) };
    s.box_sizing = if k.content_box { BoxSizing::ContentBox } else { BoxSizing::BorderBox };
    if k.chrome {
        s.border = Border::all(BorderEdge { kind: BorderKind::Solid, color: None });
        s.padding = Spacing { top: c(1), right: c(1), bottom: c(0), left: c(2) };
    }
    s.dock = k.dock;
    s.position = if k.abs { Position::Absolute } else { Position::Relative };
    s.offset_x = k.off.0.map(sc);
    s.offset_y = k.off.1.map(sc);
    s.layer = k.layer.map(|s| s.to_string());
    s.grid_placement.column_span = k.span.0;
    s.grid_placement.row_span = k.span.1;
    s
}
const CHROME_W: i32 = 5;
const CHROME_H: i32 = 3;

#[derive(Clone, Copy, Debug)]
struct Space {
    r: Region,
    vw: i32,
    vh: i32,
}
fn sp(x: i32, y: i32, w: i32, h: i32, vw: i32, vh: i32) -> Space {
    Space { r: Region { x, y, width: w, height: h }, vw, vh }
}

fn with_children<T>(kids: &[Kid], f: impl FnOnce(&[LayoutChild]) -> T) -> T {
    let nodes: Vec<Node> = kids.iter().cloned().map(Node).collect();
    let ch: Vec<LayoutChild> = nodes.iter().enumerate().map(|(i, n)| LayoutChild { index: i, style: style_of(&n.0), desired_size: n.desired_size(), node: n }).collect();
    f(&ch)
}

type Rect = (i32, i32, i32, i32);
fn rects(p: &[WidgetPlacement]) -> Vec<(usize, Rect)> {
    p.iter().map(|p| (p.child_index, (p.region.x, p.region.y, p.region.width, p.region.height))).collect()
}

// ---------------------------------------------------------------------------
// Reference models.

/// The percentage base of a relative unit.
fn basis(u: Unit, own: i32, s: &Space) -> Option<i32> {
    Some(match u {
        Unit::Percent => own,
        Unit::Width => s.r.width,
        Unit::Height => s.r.height,
        Unit::ViewWidth => s.vw,
        Unit::ViewHeight => s.vh,
        _ => return None,
    })
}
fn rel(l: Len, own: i32, s: &Space) -> Option<Q> {
    basis(l.1, own, s).map(|b| q(l) * Q::int(b) / Q::int(100))
}
/// max first, then min; limits are whole cells unless `exact`.
fn limit(v: Q, max: Option<Len>, min: Option<Len>, own: i32, s: &Space, exact: bool) -> Q {
    let lim = |l: Len| {
        let x = rel(l, own, s).unwrap_or(q(l));
        if exact { x } else { Q::int(x.trunc()) }
    };
    let v = max.map_or(v, |m| v.min(lim(m)));
    min.map_or(v, |m| v.max(lim(m)))
}

/// Width of a child across a vertical container.
fn v_width(k: &Kid, s: &Space) -> i32 {
    let m = k.margin[1] + k.margin[3];
    let chrome = if k.content_box && k.chrome { CHROME_W } else { 0 };
    let w = match k.w {
        None | Some((_, Unit::Fraction)) => (s.r.width - m).max(0),
        Some((_, Unit::Auto)) => k.desired.0 as i32,
        Some(l @ (_, Unit::Cells)) => q(l).trunc() + chrome,
        Some(l) => (rel(l, s.r.width, s).unwrap().round() + chrome - m).max(0),
    };
    limit(Q::int(w), k.maxw, k.minw, s.r.width, s, false).trunc()
}

fn model_vertical(kids: &[Kid], s: &Space) -> Vec<Rect> {
    // Lengths along the axis of the children that do not share.
    let widths: Vec<i32> = kids.iter().map(|k| v_width(k, s)).collect();
    let share = |k: &Kid| match k.h {
        Some(l @ (_, Unit::Fraction)) => Some(q(l)),
        None if k.desired.1 == FILL => Some(Q::int(1)),
        _ => None,
    };
    let fixed = |k: &Kid, w: i32| -> Q {
        let chrome = Q::int(if k.content_box && k.chrome { CHROME_H } else { 0 });
        let v = match k.h {
            None => Q::int(k.desired.1 as i32),
            Some(l @ (_, Unit::Cells)) => Q::int(q(l).trunc()) + chrome,
            Some((_, Unit::Auto)) => Q::int(lines(k.area, w)),
            // 'w' follows the terminal here, as documented in the layout.
            Some(l @ (_, Unit::Width)) => q(l) * Q::int(s.vw) / Q::int(100) + chrome,
            Some(l) => rel(l, s.r.height, s).unwrap() + chrome,
        };
        let v = if matches!(k.h, Some((_, Unit::Percent | Unit::Height))) { (v - Q::int(k.margin[0] + k.margin[2])).max(Q::int(0)) } else { v };
        limit(v, k.maxh, k.minh, s.r.height, s, true)
    };
    let gaps: Vec<i32> = kids.iter().enumerate().map(|(i, k)| if i == 0 { k.margin[0] } else { k.margin[0].max(kids[i - 1].margin[2]) }).collect();
    let total_gap = gaps.iter().sum::<i32>() + kids.last().map_or(0, |k| k.margin[2]);
    let used = kids.iter().zip(&widths).filter(|(k, _)| share(k).is_none()).fold(Q::int(0), |a, (k, w)| a + fixed(k, *w));
    let total: Q = kids.iter().filter_map(share).fold(Q::int(0), |a, b| a + b);
    let left = Q::int(s.r.height - total_gap) - used;
    let unit = if left > Q::int(0) && total > Q::int(0) { left / total } else { Q::int(1) };
    let mut y = Q::int(s.r.y);
    let mut out = vec![];
    for (i, k) in kids.iter().enumerate() {
        let h = match share(k) {
            Some(f) => limit(f * unit, k.maxh, k.minh, s.r.height, s, true),
            None => fixed(k, widths[i]),
        };
        y = y + Q::int(gaps[i]);
        let top = y.floor();
        let end = y + h;
        out.push((s.r.x + k.margin[3], top, widths[i], (end.floor() - top).max(0)));
        y = end;
    }
    out
}

fn model_horizontal(kids: &[Kid], s: &Space) -> Vec<Rect> {
    let share = |k: &Kid| match k.w {
        Some(l @ (_, Unit::Fraction)) => Some(q(l)),
        None | Some((_, Unit::Auto)) if k.desired.0 == FILL => Some(Q::int(1)),
        _ => None,
    };
    // Ideal fixed widths; the children get whole cells, carrying the remainder along.
    let mut cum = Q::int(0);
    let mut widths: Vec<Option<i32>> = vec![];
    for k in kids {
        if share(k).is_some() {
            widths.push(None);
            continue;
        }
        let chrome = Q::int(if k.content_box && k.chrome { CHROME_W } else { 0 });
        let w = match k.w {
            None | Some((_, Unit::Auto)) => Q::int(k.desired.0 as i32),
            Some(l @ (_, Unit::Cells)) => Q::int(q(l).trunc()) + chrome,
            Some(l) => rel(l, s.r.width, s).unwrap() + chrome,
        };
        let next = cum + w;
        widths.push(Some(next.floor() - cum.floor()));
        cum = next;
    }
    let lim = |w: i32, k: &Kid| limit(Q::int(w), k.maxw, k.minw, s.r.width, s, false).trunc();
    let gaps: Vec<i32> = kids.iter().enumerate().map(|(i, k)| if i == 0 { k.margin[3] } else { k.margin[3].max(kids[i - 1].margin[1]) }).collect();
    let total_gap = gaps.iter().sum::<i32>() + kids.last().map_or(0, |k| k.margin[1]);
    let used: i32 = kids.iter().zip(&widths).filter_map(|(k, w)| w.map(|w| lim(w, k))).sum();
    let left = (s.r.width - total_gap - used).max(0);
    let total = kids.iter().filter_map(share).fold(Q::int(0), |a, b| a + b);
    // Shares: rounded down, the cells left over going to the first sharers.
    let mut shares: Vec<i32> = kids.iter().map(|k| share(k).map_or(0, |f| (Q::int(left) * f / total).floor())).collect();
    let mut over = left - shares.iter().sum::<i32>();
    for (i, k) in kids.iter().enumerate() {
        if share(k).is_some() && over > 0 && left > 0 {
            shares[i] += 1;
            over -= 1;
        }
    }
    let mut x = s.r.x;
    let mut out = vec![];
    for (i, k) in kids.iter().enumerate() {
        let w = lim(widths[i].unwrap_or(shares[i]), k);
        let chrome = if k.content_box && k.chrome { CHROME_H } else { 0 };
        let h = match k.h {
            None | Some((_, Unit::Fraction)) => s.r.height,
            Some((_, Unit::Auto)) => lines(k.area, w),
            Some(l @ (_, Unit::Cells)) => q(l).trunc() + chrome,
            Some(l) => rel(l, s.r.height, s).unwrap().trunc() + chrome,
        };
        let h = if matches!(k.h, Some((_, Unit::Auto | Unit::Cells))) { h } else { (h - k.margin[0] - k.margin[2]).max(0) };
        let h = limit(Q::int(h), k.maxh, k.minh, s.r.height, s, false).trunc();
        x += gaps[i];
        out.push((x, s.r.y + k.margin[0], w, h));
        x += w;
    }
    out
}

// ---------------------------------------------------------------------------
// C12

const C: Unit = Unit::Cells;
const P: Unit = Unit::Percent;
const FR: Unit = Unit::Fraction;
const AUTO: Unit = Unit::Auto;
const W_: Unit = Unit::Width;
const H_: Unit = Unit::Height;
const VW: Unit = Unit::ViewWidth;
const VH: Unit = Unit::ViewHeight;

fn spaces(thorough: bool) -> Vec<Space> {
    let mut v = vec![sp(0, 0, 40, 24, 80, 24), sp(3, 2, 17, 10, 40, 30), sp(0, 1, 100, 100, 100, 101), sp(5, 0, 7, 3, 20, 8), sp(0, 0, 0, 0, 10, 10)];
    if thorough {
        v.extend([sp(-4, -3, 33, 29, 33, 29), sp(1, 1, 1, 1, 1, 1), sp(0, 0, 119, 47, 237, 59), sp(10, 10, 57, 41, 41, 57)]);
    }
    v
}

/// Every way a child may specify its length along the axis (`main`) or across it.
fn lens() -> Vec<Option<Len>> {
    vec![None, Some((30, C)), Some((0, C)), Some((500, P)), Some((333, P)), Some((290, P)), Some((125, W_)), Some((250, H_)), Some((70, VW)), Some((200, VH)), Some((0, AUTO)), Some((10, FR)), Some((20, FR)), Some((15, FR)), Some((23, FR))]
}
fn limits() -> Vec<(Option<Len>, Option<Len>)> {
    // (max, min)
    vec![(None, None), (Some((20, C)), None), (None, Some((60, C))), (Some((30, C)), Some((50, C))), (Some((290, P)), None), (None, Some((150, VH))), (Some((100, VW)), Some((50, W_))), (Some((120, H_)), None),
         (Some((310, W_)), None), (Some((230, VW)), None), (Some((270, VH)), None), (None, Some((330, P))), (None, Some((430, W_))), (None, Some((530, H_))), (None, Some((370, VW)))]
}
fn margins() -> Vec<[i32; 4]> {
    vec![[0; 4], [1, 1, 1, 1], [2, 0, 1, 3], [0, 2, 3, 0]]
}

fn judge(vertical: bool, kids: &[Kid], s: &Space, w: &mut W) -> Result<(), String> {
    let vp = Viewport { width: s.vw, height: s.vh };
    let got = with_children(kids, |ch| {
        let st = ComputedStyle::default();
        if vertical { VerticalLayout.arrange(&st, ch, s.r, vp) } else { HorizontalLayout.arrange(&st, ch, s.r, vp) }
    });
    let got = rects(&got);
    let want = if vertical { model_vertical(kids, s) } else { model_horizontal(kids, s) };
    let want: Vec<(usize, Rect)> = want.into_iter().enumerate().collect();
    ensure!(got == want, "in {s:?}: placed at {got:?}, by definition {want:?}");
    w.steps(kids.len() as u64);
    w.outcome(&got);
    // Guarantees that do not depend on the model's details.
    for p in got.windows(2) {
        let (a, b) = (p[0].1, p[1].1);
        if vertical { ensure!(b.1 >= a.1 + a.3, "children overlap: {a:?} {b:?}") } else { ensure!(b.0 >= a.0 + a.2, "children overlap: {a:?} {b:?}") }
    }
    Ok(())
}

fn c12(ctx: &Ctx) {
    ctx.assume("box-sizing: content-box is enumerated where the layouts document it (vertical: heights in cells; horizontal: widths of every relative unit and cells, heights in cells and relative units)");
    ctx.assume("fr children with a min or max length take their clamped share; the difference is not redistributed");
    let sps = spaces(ctx.thorough());
    let (ls, lm, mg) = (lens(), limits(), margins());
    for vertical in [true, false] {
        let dir = if vertical { "vertical" } else { "horizontal" };
        // 1. One child: every combination of everything.
        let n = (ls.len() * ls.len() * lm.len() * lm.len() * mg.len() * 2 * 3) as u64;
        let dec = |i: u64| {
            let mut m = Mix(i);
            let mut k = KID;
            k.w = *m.of(&ls);
            k.h = *m.of(&ls);
            (k.maxw, k.minw) = *m.of(&lm);
            (k.maxh, k.minh) = *m.of(&lm);
            k.margin = *m.of(&mg);
            if m.pick(2) == 1 {
                k.desired = if vertical { (4, FILL) } else { (FILL, 2) };
            }
            match m.pick(3) {
                1 => k.chrome = true,
                2 => {
                    k.chrome = true;
                    // Across a vertical container widths are taken as given.
                    k.content_box = true;
                }
                _ => {}
            }
            k
        };
        ctx.explore(&format!("{dir}: one child, every combination"), n, |i| show(&dec(i)), |i, w| {
            let k = dec(i);
            for s in &sps {
                judge(vertical, std::slice::from_ref(&k), s, w)?;
            }
            Ok(())
        });
        // 2. Sequences of children that differ in their length along the axis.
        let axis = |l: Option<Len>, fill: bool| {
            let mut k = KID;
            if vertical { k.h = l } else { k.w = l }
            if fill {
                k.desired = if vertical { (4, FILL) } else { (FILL, 2) };
            }
            k
        };
        let mut kinds: Vec<Kid> = ls.iter().map(|l| axis(*l, false)).collect();
        kinds.push(axis(None, true));
        let len = ctx.pick(4, 5);
        let nk = kinds.len() as u64;
        let dec2 = |i: u64| -> Vec<Kid> { seq_at(i, nk, len).iter().map(|x| kinds[*x].clone()).collect() };
        ctx.explore(&format!("{dir}: every sequence of up to {len} children by unit"), seq_count(nk, len), |i| shows(&dec2(i)), |i, w| {
            let k = dec2(i);
            for s in &sps {
                judge(vertical, &k, s, w)?;
            }
            w.state(&i);
            Ok(())
        });
        // 3. Sequences with margins and limits.
        let mut rich: Vec<Kid> = vec![];
        for l in [Some((30, C)), Some((333, P)), Some((10, FR)), Some((0, AUTO)), Some((200, VH)), None] {
            for (mx, mn) in [(None, None), (Some((20, C)), None), (None, Some((60, C)))] {
                for m in &mg {
                    let mut k = axis(l, false);
                    if vertical { (k.maxh, k.minh) = (mx, mn) } else { (k.maxw, k.minw) = (mx, mn) }
                    k.margin = *m;
                    rich.push(k);
                }
            }
        }
        let nr = rich.len() as u64;
        let len3 = ctx.pick(3, 3);
        let dec3 = |i: u64| -> Vec<Kid> { let mut m = Mix(i); (0..len3).map(|_| m.of(&rich).clone()).collect() };
        ctx.explore(&format!("{dir}: every triple of children with margins and limits"), nr.pow(len3), |i| shows(&dec3(i)), |i, w| {
            let k = dec3(i);
            for s in &sps[..ctx.pick(2, 5)] {
                judge(vertical, &k, s, w)?;
            }
            Ok(())
        });
        // 4. Shares: any number of sharers in any length add up exactly.
        let nmax = ctx.pick(14, 24) as u64;
        let lmax = ctx.pick(130, 300) as u64;
        let weights: Vec<Vec<i32>> = vec![vec![10], vec![10, 20], vec![10, 10, 30], vec![15, 10], vec![70, 30, 10], vec![23], vec![46, 23], vec![1, 2, 7]];
        ctx.explore(&format!("{dir}: 1..={nmax} sharers in lengths up to {lmax}"), nmax * lmax * weights.len() as u64, |i| { let mut m = Mix(i); format!("n={} length={} weights={}", m.pick(nmax) + 1, m.pick(lmax) + 1, m.pick(weights.len() as u64)) }, |i, w| {
            let mut m = Mix(i);
            let (n, len, ws) = (m.pick(nmax) + 1, m.pick(lmax) as i32 + 1, m.of(&weights));
            let kids: Vec<Kid> = (0..n).map(|j| axis(Some((ws[j % ws.len()], FR)), false)).collect();
            let s = if vertical { sp(2, 3, 20, len, 50, 60) } else { sp(2, 3, len, 20, 50, 60) };
            judge(vertical, &kids, &s, w)?;
            let got = with_children(&kids, |ch| {
                let st = ComputedStyle::default();
                let vp = Viewport { width: 50, height: 60 };
                rects(&if vertical { VerticalLayout.arrange(&st, ch, s.r, vp) } else { HorizontalLayout.arrange(&st, ch, s.r, vp) })
            });
            let sum: i32 = got.iter().map(|(_, r)| if vertical { r.3 } else { r.2 }).sum();
            ensure!(sum == len, "shares add up to {sum} instead of {len}: {got:?}");
            Ok(())
        });
        // 5. Percentages of every length.
        ctx.explore(&format!("{dir}: every whole percentage of every length up to {lmax}"), 101 * lmax, |i| format!("{}% of {}", i % 101, i / 101 + 1), |i, w| {
            let (pc, len) = ((i % 101) as i32 * 10, (i / 101) as i32 + 1);
            for u in [P, if vertical { H_ } else { W_ }] {
                let mut a = axis(Some((pc, u)), false);
                let b = axis(Some((10, FR)), false);
                a.margin = [0; 4];
                // The same percentage across the axis and as limits.
                if vertical { a.w = Some((pc, P)) } else { a.h = Some((pc, P)) }
                let mut c = a.clone();
                if vertical { c.h = Some((9990, C)); c.maxh = Some((pc, P)); c.minw = Some((pc, P)); } else { c.w = Some((9990, C)); c.maxw = Some((pc, P)); c.minh = Some((pc, P)); }
                let s = sp(0, 0, len, len, 50, 60);
                judge(vertical, &[a.clone(), b.clone()], &s, w)?;
                judge(vertical, &[c, a, b], &s, w)?;
            }
            Ok(())
        });
    }
}


// ---------------------------------------------------------------------------
// C13

#[derive(Clone, Debug)]
struct Grid {
    cols: Option<u16>,
    rows: Option<u16>,
    cw: Vec<Len>,
    rh: Vec<Len>,
    /// vertical gap (between rows), horizontal gap (between columns)
    gut: (Len, Len),
    auto_w: bool,
    auto_h: bool,
    min_col: Option<u16>,
}
const GRID: Grid = Grid { cols: None, rows: None, cw: vec![], rh: vec![], gut: ((0, C), (0, C)), auto_w: false, auto_h: false, min_col: None };

fn grid_style(g: &Grid) -> ComputedStyle {
    let mut s = ComputedStyle::default();
    s.layout = Layout::Grid;
    s.grid.columns = g.cols;
    s.grid.rows = g.rows;
    s.grid.column_widths = g.cw.iter().copied().map(sc).collect();
    s.grid.row_heights = g.rh.iter().copied().map(sc).collect();
    s.grid.gutter = (sc(g.gut.0), sc(g.gut.1));
    if g.auto_w { s.width = Some(sc((0, AUTO))) }
    if g.auto_h { s.height = Some(sc((0, AUTO))) }
    s
}

/// Where each child goes: (row, col, rows, cols); None once the grid is full.
fn place(spans: &[(u16, u16)], rows: Option<usize>, cols: usize) -> Vec<Option<(usize, usize, usize, usize)>> {
    let mut taken = std::collections::HashSet::new();
    let mut at = 0usize; // reading-order position of the cursor
    let mut out = vec![];
    for (cs, rs) in spans {
        let (cs, rs) = ((*cs).max(1) as usize, (*rs).max(1) as usize);
        let mut found = None;
        loop {
            let (r, c) = (at / cols, at % cols);
            if rows.is_some_and(|n| r >= n) { break; }
            let cs = cs.min(cols - c);
            let rs = rows.map_or(rs, |n| rs.min(n - r));
            let area: Vec<(usize, usize)> = (r..r + rs).flat_map(|r| (c..c + cs).map(move |c| (r, c))).collect();
            at += 1;
            if area.iter().all(|a| !taken.contains(a)) {
                taken.extend(area);
                found = Some((r, c, rs, cs));
                break;
            }
        }
        out.push(found);
    }
    out
}

/// Sizes of `n` tracks in `avail` cells.
fn tracks(specs: &[Len], n: usize, avail: i32, gap: i32) -> Vec<i32> {
    let room = (avail - gap * (n as i32 - 1)).max(0);
    let spec = |i: usize| if specs.is_empty() { (10, FR) } else { specs[i % specs.len()] };
    let fixed = |l: Len| match l.1 {
        Unit::Fraction | Unit::Auto => None,
        Unit::Percent => Some((q(l) * Q::int(room) / Q::int(100)).trunc()),
        _ => Some(q(l).trunc()),
    };
    let left = room - (0..n).filter_map(|i| fixed(spec(i))).sum::<i32>();
    let fr = (0..n).filter(|i| spec(*i).1 == FR).fold(Q::int(0), |a, i| a + q(spec(i)));
    let autos = (0..n).filter(|i| spec(*i).1 == AUTO).count() as i32;
    let mut cum = Q::int(0);
    (0..n)
        .map(|i| {
            let l = spec(i);
            let share = match l.1 {
                Unit::Fraction => q(l) / fr,
                Unit::Auto if fr == Q::int(0) => Q::int(1) / Q::int(autos),
                Unit::Auto => return 1,
                _ => return fixed(l).unwrap().max(1),
            };
            // Shares of what is left: cell boundaries at the rounded-down running total.
            let next = cum + share * Q::int(left);
            let got = next.floor() - cum.floor();
            cum = next;
            got.max(1)
        })
        .collect()
}
/// Tracks as large as their largest child, shrunk in proportion when there is no room.
fn content_tracks(content: &[i32], avail: i32, gap: i32) -> Vec<i32> {
    let room = avail - gap * (content.len() as i32 - 1);
    let total: i32 = content.iter().sum();
    content.iter().map(|c| if total <= room { *c } else { (Q::int(*c) * Q::int(room) / Q::int(total)).trunc() }.max(1)).collect()
}

struct GridModel {
    cells: Vec<Option<(usize, usize, usize, usize)>>,
    cw: Vec<i32>,
    rh: Vec<i32>,
    gh: i32,
    gv: i32,
}
fn grid_model(g: &Grid, kids: &[Kid], s: &Space) -> GridModel {
    let cols = match g.min_col {
        Some(m) if m > 0 && s.r.width > 0 => (s.r.width / m as i32).max(1) as usize,
        _ => g.cols.unwrap_or(1) as usize,
    };
    let spans: Vec<(u16, u16)> = kids.iter().map(|k| k.span).collect();
    let mut cells = place(&spans, g.rows.map(|r| r as usize), cols);
    let rows = g.rows.map_or_else(|| cells.iter().flatten().map(|c| c.0 + c.2).max().unwrap_or(0), |r| r as usize);
    // Nothing is placed after the last cell has been used.
    let mut full = false;
    for c in &mut cells {
        if full { *c = None; }
        match c {
            Some((r, c, _, _)) => full |= *r * cols + *c + 1 == rows * cols,
            None => full = true,
        }
    }
    let gap = |l: Len, own: i32| if l.1 == P { (q(l) * Q::int(own) / Q::int(100)).trunc() } else { q(l).trunc() };
    let (gv, gh) = (gap(g.gut.0, s.r.height), gap(g.gut.1, s.r.width));
    let mut cc = vec![0; cols];
    let mut rc = vec![0; rows];
    for (c, k) in cells.iter().zip(kids) {
        if let Some((r, c, rs, cs)) = c {
            if *cs == 1 { cc[*c] = cc[*c].max(k.desired.0 as i32) }
            if *rs == 1 { rc[*r] = rc[*r].max(k.desired.1 as i32) }
        }
    }
    let cw = if g.auto_w && g.cw.is_empty() { content_tracks(&cc, s.r.width, gh) } else { tracks(&g.cw, cols, s.r.width, gh) };
    let rh = if g.auto_h && g.rh.is_empty() { content_tracks(&rc, s.r.height, gv) } else { tracks(&g.rh, rows, s.r.height, gv) };
    GridModel { cells, cw, rh, gh, gv }
}
fn track_at(t: &[i32], gap: i32, i: usize) -> i32 {
    t[..i].iter().sum::<i32>() + gap * i as i32
}
fn track_len(t: &[i32], gap: i32, i: usize, n: usize) -> i32 {
    t[i..i + n].iter().sum::<i32>() + gap * (n as i32 - 1)
}
fn model_grid(g: &Grid, kids: &[Kid], s: &Space) -> Vec<(usize, Rect)> {
    let m = grid_model(g, kids, s);
    let mut out = vec![];
    for (i, k) in kids.iter().enumerate() {
        let Some((r, c, rs, cs)) = m.cells[i] else { break };
        let (x, y) = (s.r.x + track_at(&m.cw, m.gh, c), s.r.y + track_at(&m.rh, m.gv, r));
        let (cw, ch) = (track_len(&m.cw, m.gh, c, cs), track_len(&m.rh, m.gv, r, rs));
        let cell = Space { r: Region { x, y, width: cw, height: ch }, ..*s };
        let w = match k.w {
            None | Some((_, Unit::Fraction)) => cw,
            Some((_, Unit::Auto)) => k.desired.0 as i32,
            Some(l @ (_, Unit::Cells)) => q(l).trunc(),
            Some(l) => rel(l, cw, &cell).unwrap().round(),
        }
        .min(cw);
        let h = match k.h {
            None | Some((_, Unit::Fraction)) => ch,
            Some((_, Unit::Auto)) => lines(k.area, w),
            Some(l @ (_, Unit::Cells)) => q(l).trunc(),
            Some(l) => rel(l, ch, &cell).unwrap().round(),
        };
        out.push((i, (x + k.margin[3], y + k.margin[0], (w - k.margin[1] - k.margin[3]).max(0), (h - k.margin[0] - k.margin[2]).max(0))));
    }
    out
}

fn judge_grid(g: &Grid, kids: &[Kid], s: &Space, w: &mut W) -> Result<(), String> {
    let vp = Viewport { width: s.vw, height: s.vh };
    let st = grid_style(g);
    let mut lay = GridLayout { min_column_width: g.min_col, ..Default::default() };
    let (got, info) = with_children(kids, |ch| (rects(&lay.arrange(&st, ch, s.r, vp)), lay.compute_track_info(&st, ch, s.r)));
    let want = model_grid(g, kids, s);
    ensure!(got == want, "in {s:?}: placed at {got:?}, by definition {want:?}");
    w.steps(kids.len() as u64);
    w.outcome(&got);
    if kids.is_empty() { return Ok(()); }
    // The lines drawn between cells are where the cells are.
    let m = grid_model(g, kids, s);
    let edges = |t: &[i32], gap: i32, len: i32| -> Vec<i32> {
        let mut v: Vec<i32> = (0..t.len()).map(|i| track_at(t, gap, i)).collect();
        if !t.is_empty() {
            let e = track_at(t, gap, t.len() - 1) + t[t.len() - 1];
            v.push(if e >= len { len - 1 } else { e });
        }
        v
    };
    let want = (edges(&m.cw, m.gh, s.r.width), edges(&m.rh, m.gv, s.r.height));
    ensure!((info.col_positions.clone(), info.row_positions.clone()) == want, "in {s:?}: cell edges at {:?} {:?}, by definition {want:?}", info.col_positions, info.row_positions);
    let mut occ = vec![vec![None; m.cw.len()]; m.rh.len()];
    for (i, c) in m.cells.iter().enumerate() {
        if let Some((r, c, rs, cs)) = c {
            for row in &mut occ[*r..r + rs] {
                for cell in &mut row[*c..c + cs] {
                    *cell = Some(i);
                }
            }
        }
    }
    ensure!(info.cell_occupancy == occ, "in {s:?}: cells belong to {:?}, by definition {occ:?}", info.cell_occupancy);
    Ok(())
}
fn show_grid(g: &Grid) -> String {
    let mut s = format!("cols={:?} rows={:?}", g.cols, g.rows);
    if !g.cw.is_empty() { s += &format!(" columns={:?}", g.cw) }
    if !g.rh.is_empty() { s += &format!(" rows={:?}", g.rh) }
    if g.gut != GRID.gut { s += &format!(" gutter={:?}", g.gut) }
    if g.auto_w { s += " width=auto" }
    if g.auto_h { s += " height=auto" }
    if let Some(m) = g.min_col { s += &format!(" min-column={m}") }
    s
}

fn c13(ctx: &Ctx) {
    ctx.assume("grid-size of at least 1; tracks never shrink below one cell; column-span and row-span up to 3; the container's own chrome is not part of the region given to the layout");
    let sps: Vec<Space> = spaces(ctx.thorough()).into_iter().filter(|s| s.r.width > 0).collect();
    let ls = lens();
    let mg = margins();
    // 1. Placement: every sequence of spans in every grid size.
    let mut spans: Vec<(u16, u16)> = vec![];
    for c in 1..=3 {
        for r in 1..=3 {
            spans.push((c, r));
        }
    }
    let sizes: Vec<(Option<u16>, Option<u16>)> = [None, Some(1), Some(2), Some(3), Some(4)].into_iter().flat_map(|c| [None, Some(1), Some(2), Some(3), Some(5)].into_iter().map(move |r| (c, r))).collect();
    let len = ctx.pick(4, 5);
    let ns = spans.len() as u64;
    let dec = |i: u64| -> Vec<Kid> { seq_at(i, ns, len).iter().map(|x| Kid { span: spans[*x], ..KID }).collect() };
    ctx.explore(&format!("every sequence of up to {len} children with spans up to 3x3 in every grid size up to 4x5"), seq_count(ns, len), |i| shows(&dec(i)), |i, w| {
        let k = dec(i);
        for (c, r) in &sizes {
            for auto in [false, true] {
                let g = Grid { cols: *c, rows: *r, gut: ((10, C), (10, C)), auto_w: auto, auto_h: auto, ..GRID };
                judge_grid(&g, &k, &sps[0], w).map_err(|e| format!("{}: {e}", show_grid(&g)))?;
            }
        }
        w.state(&i);
        Ok(())
    });
    // 1b. Longer sequences of fewer kinds.
    let few = [(1u16, 1u16), (2, 1), (1, 2), (2, 2)];
    let len = ctx.pick(7, 9);
    let dec = |i: u64| -> Vec<Kid> { seq_at(i, 4, len).iter().map(|x| Kid { span: few[*x], ..KID }).collect() };
    ctx.explore(&format!("every sequence of up to {len} children with spans up to 2x2"), seq_count(4, len), |i| shows(&dec(i)), |i, w| {
        let k = dec(i);
        for (c, r) in &sizes {
            let g = Grid { cols: *c, rows: *r, ..GRID };
            judge_grid(&g, &k, &sps[1], w).map_err(|e| format!("{}: {e}", show_grid(&g)))?;
        }
        Ok(())
    });
    // 2. Tracks: every combination of specs, gaps and sizes.
    let specs: Vec<Vec<Len>> = vec![vec![], vec![(10, FR)], vec![(10, FR), (20, FR)], vec![(50, C), (10, FR)], vec![(0, AUTO), (100, C)], vec![(250, P), (10, FR), (0, AUTO)], vec![(30, C), (40, C)], vec![(0, AUTO)], vec![(290, P)], vec![(23, FR)], vec![(46, FR), (23, FR), (23, FR)], vec![(7, FR), (1, FR)], vec![(0, C), (15, FR)], vec![(600, P), (600, P)]];
    let guts: Vec<Len> = vec![(0, C), (10, C), (30, C), (100, P), (290, P)];
    let count = (specs.len() * specs.len() * guts.len() * guts.len() * 5 * 4 * 4) as u64;
    let dec2 = |i: u64| {
        let mut m = Mix(i);
        let g = Grid { cw: m.of(&specs).clone(), rh: m.of(&specs).clone(), gut: (*m.of(&guts), *m.of(&guts)), cols: [None, Some(1), Some(2), Some(3), Some(5)][m.pick(5)], rows: [None, Some(1), Some(2), Some(4)][m.pick(4)], ..GRID };
        let a = m.pick(4);
        Grid { auto_w: a & 1 == 1, auto_h: a & 2 == 2, ..g }
    };
    let kids: Vec<Kid> = vec![
        Kid { desired: (7, 3), ..KID },
        Kid { desired: (3, 1), span: (2, 1), ..KID },
        Kid { desired: (12, 5), ..KID },
        Kid { desired: (1, 2), span: (1, 2), ..KID },
        Kid { desired: (40, 30), ..KID },
        Kid { desired: (5, 0), w: Some((0, AUTO)), h: Some((0, AUTO)), ..KID },
    ];
    ctx.explore("every combination of track sizes, gutters, grid sizes and auto dimensions", count, |i| show_grid(&dec2(i)), |i, w| {
        let g = dec2(i);
        for s in &sps {
            for n in [1, 3, 6] {
                judge_grid(&g, &kids[..n], s, w).map_err(|e| format!("{n} children: {e}"))?;
            }
        }
        Ok(())
    });
    // 3. The child in its cell.
    let n3 = (ls.len() * ls.len() * mg.len() * 3 * 4) as u64;
    let dec3 = |i: u64| {
        let mut m = Mix(i);
        let k = Kid { w: *m.of(&ls), h: *m.of(&ls), margin: *m.of(&mg), desired: [(4, 2), (30, 20), (0, 0)][m.pick(3)], span: [(1, 1), (2, 1), (1, 2), (3, 2)][m.pick(4)], ..KID };
        vec![KID, k, KID]
    };
    ctx.explore("every size and margin of a child in its cell", n3, |i| shows(&dec3(i)), |i, w| {
        let k = dec3(i);
        for s in &sps {
            for g in [Grid { cols: Some(3), ..GRID }, Grid { cols: Some(2), rows: Some(3), gut: ((10, C), (20, C)), ..GRID }, Grid { cols: Some(4), cw: vec![(80, C), (10, FR)], rh: vec![(30, C), (50, C)], ..GRID }] {
                judge_grid(&g, &k, s, w).map_err(|e| format!("{}: {e}", show_grid(&g)))?;
            }
        }
        Ok(())
    });
    // 4. Every number of tracks in every length; minimum column widths.
    let (nmax, lmax) = (ctx.pick(16, 30) as u64, ctx.pick(120, 260) as u64);
    ctx.explore(&format!("1..={nmax} tracks in lengths up to {lmax}"), nmax * lmax * 4 * specs.len() as u64, |i| { let mut m = Mix(i); format!("tracks={} length={} gap={} specs={:?}", m.pick(nmax) + 1, m.pick(lmax) + 1, m.pick(4), m.of(&specs)) }, |i, w| {
        let mut m = Mix(i);
        let (n, len, gap, spec) = (m.pick(nmax) + 1, m.pick(lmax) as i32 + 1, m.pick(4) as i32, m.of(&specs));
        let g = Grid { cols: Some(n as u16), rows: Some(n as u16), cw: spec.clone(), rh: spec.clone(), gut: ((gap * 10, C), (gap * 10, C)), ..GRID };
        let s = sp(1, 2, len, len, 30, 40);
        let kids = vec![KID; n + 1];
        judge_grid(&g, &kids, &s, w)?;
        if spec.len() <= 3 && spec.iter().all(|l| l.1 == FR) && len >= 10 * n as i32 + gap * (n as i32 - 1) {
            let mut lay = GridLayout::default();
            let st = grid_style(&g);
            let got = with_children(&kids[..n], |ch| rects(&lay.arrange(&st, ch, s.r, Viewport { width: 30, height: 40 })));
            let last = got.last().unwrap().1;
            ensure!(last.0 + last.2 == s.r.x + len, "the columns end at {} instead of {}: {got:?}", last.0 + last.2, s.r.x + len);
        }
        Ok(())
    });
    ctx.explore(&format!("minimum column widths 0..=40 in widths up to {lmax}"), 41 * lmax, |i| format!("min {} width {}", i % 41, i / 41), |i, w| {
        let g = Grid { cols: Some(2), min_col: Some((i % 41) as u16), gut: ((0, C), (10, C)), ..GRID };
        let s = sp(0, 0, (i / 41) as i32, 20, 30, 40);
        judge_grid(&g, &[KID, Kid { span: (2, 1), ..KID }, KID, KID], &s, w)
    });
}


// ---------------------------------------------------------------------------
// C14

#[derive(Clone, Debug)]
struct Parent {
    layout: Layout,
    ah: AlignHorizontal,
    av: AlignVertical,
    layers: Option<Vec<&'static str>>,
}
const PARENT: Parent = Parent { layout: Layout::Vertical, ah: AlignHorizontal::Left, av: AlignVertical::Top, layers: None };
const AH: [AlignHorizontal; 3] = [AlignHorizontal::Left, AlignHorizontal::Center, AlignHorizontal::Right];
const AV: [AlignVertical; 3] = [AlignVertical::Top, AlignVertical::Middle, AlignVertical::Bottom];
const LAY: [Layout; 3] = [Layout::Vertical, Layout::Horizontal, Layout::Grid];

fn offset_by(k: &Kid, r: Rect, s: &Space) -> Rect {
    let d = |l: Option<Len>, own: i32| {
        let Some(l) = l else { return 0 };
        let b = match l.1 {
            Unit::Percent => own,
            Unit::Width => r.2,
            Unit::Height => r.3,
            Unit::ViewWidth => s.vw,
            Unit::ViewHeight => s.vh,
            _ => return q(l).trunc(),
        };
        (q(l) * Q::int(b) / Q::int(100)).trunc()
    };
    (r.0 + d(k.off.0, r.2), r.1 + d(k.off.1, r.3), r.2, r.3)
}
fn absolute(k: &Kid, s: &Space) -> Rect {
    let (cw, ch) = if k.content_box && k.chrome { (CHROME_W, CHROME_H) } else { (0, 0) };
    let own_w = if k.desired.0 == FILL { s.r.width.clamp(0, 65535) } else { k.desired.0 as i32 };
    let w = match k.w {
        None => own_w,
        Some((_, Unit::Auto)) => own_w,
        Some((_, Unit::Fraction)) => s.r.width + cw,
        Some(l @ (_, Unit::Cells)) => q(l).trunc() + cw,
        Some(l) => rel(l, s.r.width, s).unwrap().round() + cw,
    };
    let w = limit(Q::int(w), k.maxw, k.minw, s.r.width, s, false).trunc();
    let h = match k.h {
        None => lines(k.area, w),
        Some((_, Unit::Auto)) => lines(k.area, w),
        Some((_, Unit::Fraction)) => s.r.height + ch,
        Some(l @ (_, Unit::Cells)) => q(l).trunc() + ch,
        Some(l) => rel(l, s.r.height, s).unwrap().round() + ch,
    };
    let h = limit(Q::int(h), k.maxh, k.minh, s.r.height, s, false).trunc();
    (s.r.x, s.r.y, w.max(0), h.max(0))
}

/// One layer: docks around the edge, the flow in what is left, absolute children on top.
fn model_layer(p: &Parent, kids: &[(usize, &Kid)], s: &Space) -> Vec<(usize, Rect)> {
    let mut out = vec![];
    let mut edge = [0i32; 4]; // top right bottom left
    let r = s.r;
    for (i, k) in kids {
        let Some(d) = k.dock else { continue };
        let (w, h) = (k.desired.0 as i32, k.desired.1 as i32);
        let (rect, e, n) = match d {
            Dock::Top => ((r.x, r.y, r.width, h), 0, h),
            Dock::Bottom => ((r.x, r.y + r.height - h, r.width, h), 2, h),
            Dock::Left => ((r.x, r.y, w, r.height), 3, w),
            Dock::Right => ((r.x + r.width - w, r.y, w, r.height), 1, w),
        };
        edge[e] = edge[e].max(n);
        out.push((*i, offset_by(k, rect, s)));
    }
    let inner = Space { r: Region { x: r.x + edge[3], y: r.y + edge[0], width: r.width - edge[1] - edge[3], height: r.height - edge[0] - edge[2] }, ..*s };
    let flow: Vec<&(usize, &Kid)> = kids.iter().filter(|(_, k)| k.dock.is_none() && !k.abs).collect();
    let fk: Vec<Kid> = flow.iter().map(|(_, k)| (*k).clone()).collect();
    let placed: Vec<(usize, Rect)> = match p.layout {
        Layout::Vertical => model_vertical(&fk, &inner).into_iter().enumerate().collect(),
        Layout::Horizontal => model_horizontal(&fk, &inner).into_iter().enumerate().collect(),
        Layout::Grid => if fk.is_empty() { vec![] } else { model_grid(&GRID, &fk, &inner) },
    };
    if !placed.is_empty() {
        let lo = |f: &dyn Fn(&Kid, Rect) -> i32| placed.iter().map(|(i, r)| f(&fk[*i], *r)).min().unwrap();
        let hi = |f: &dyn Fn(&Kid, Rect) -> i32| placed.iter().map(|(i, r)| f(&fk[*i], *r)).max().unwrap();
        let bw = hi(&|k, r| r.0 + r.2 + k.margin[1]) - lo(&|k, r| r.0 - k.margin[3]);
        let bh = hi(&|k, r| r.1 + r.3 + k.margin[2]) - lo(&|k, r| r.1 - k.margin[0]);
        let (fx, fy) = ((inner.r.width - bw).max(0), (inner.r.height - bh).max(0));
        let dx = match p.ah { AlignHorizontal::Left => 0, AlignHorizontal::Center => fx / 2, AlignHorizontal::Right => fx };
        let dy = match p.av { AlignVertical::Top => 0, AlignVertical::Middle => fy / 2, AlignVertical::Bottom => fy };
        for (i, r) in placed {
            out.push((flow[i].0, offset_by(&fk[i], (r.0 + dx, r.1 + dy, r.2, r.3), s)));
        }
    }
    for (i, k) in kids.iter().filter(|(_, k)| k.dock.is_none() && k.abs) {
        out.push((*i, offset_by(k, absolute(k, &inner), s)));
    }
    out
}
fn model_children(p: &Parent, kids: &[Kid], s: &Space) -> Vec<(usize, Rect)> {
    let declared: Vec<&str> = p.layers.clone().unwrap_or(vec!["default"]);
    let of = |k: &Kid| k.layer.unwrap_or("default");
    let mut order: Vec<&str> = vec![];
    for k in kids {
        let l = of(k);
        if !declared.contains(&l) && !order.contains(&l) { order.push(l) }
    }
    order.extend(declared);
    order.iter().flat_map(|l| model_layer(p, &kids.iter().enumerate().filter(|(_, k)| of(k) == *l).collect::<Vec<_>>(), s)).collect()
}
fn parent_style(p: &Parent) -> ComputedStyle {
    let mut st = ComputedStyle::default();
    st.layout = p.layout;
    st.align_horizontal = p.ah;
    st.align_vertical = p.av;
    st.layers = p.layers.as_ref().map(|l| l.iter().map(|s| s.to_string()).collect());
    st
}
fn judge_all(p: &Parent, kids: &[Kid], s: &Space, w: &mut W) -> Result<(), String> {
    let st = parent_style(p);
    let vp = Viewport { width: s.vw, height: s.vh };
    let got = with_children(kids, |ch| rects(&layouts::arrange_children_with_layers(&st, ch, s.r, vp)));
    let want = model_children(p, kids, s);
    ensure!(got == want, "in {s:?} of {p:?}: placed at {got:?}, by definition {want:?}");
    if p.layers.is_none() && kids.iter().all(|k| k.layer.is_none()) {
        let plain = with_children(kids, |ch| rects(&layouts::arrange_children_with_viewport(&st, ch, s.r, vp)));
        ensure!(plain == want, "without layers, in {s:?} of {p:?}: placed at {plain:?}, by definition {want:?}");
        if s.vw == s.r.width && s.vh == s.r.height {
            let plain = with_children(kids, |ch| rects(&layouts::arrange_children(&st, ch, s.r)));
            ensure!(plain == want, "without a viewport, in {s:?} of {p:?}: placed at {plain:?}, by definition {want:?}");
            if kids.iter().all(|k| !k.abs) {
                let plain = with_children(kids, |ch| rects(&layouts::arrange_children_with_pre_layout(|_| {}, &st, ch, s.r)));
                ensure!(plain == want, "with a layout to configure, in {s:?} of {p:?}: placed at {plain:?}, by definition {want:?}");
            }
        }
    }
    w.steps(kids.len() as u64);
    w.outcome(&got);
    Ok(())
}

fn c14(ctx: &Ctx) {
    ctx.assume("docked children together leave a region that is not negative; each layer is declared once");
    let sps = [sp(0, 0, 40, 24, 80, 24), sp(3, 2, 31, 17, 60, 40), sp(0, 0, 33, 21, 33, 21)];
    let a = |k: Kid| Kid { abs: true, ..k };
    let d = |d: Dock, w: u16, h: u16| Kid { dock: Some(d), desired: (w, h), ..KID };
    let kinds: Vec<Kid> = vec![
        KID,
        Kid { w: Some((80, C)), h: Some((30, C)), margin: [1, 2, 3, 4], ..KID },
        Kid { w: Some((500, P)), h: Some((10, FR)), ..KID },
        Kid { w: Some((0, AUTO)), h: Some((0, AUTO)), desired: (5, 2), off: (Some((30, C)), Some((-20, C))), ..KID },
        d(Dock::Top, 6, 1),
        d(Dock::Top, 6, 3),
        d(Dock::Bottom, 5, 2),
        d(Dock::Left, 4, 9),
        d(Dock::Left, 7, 9),
        d(Dock::Right, 3, 2),
        Kid { off: (Some((500, P)), Some((100, C))), margin: [1, 1, 1, 1], ..d(Dock::Right, 6, 2) },
        a(KID),
        a(Kid { w: Some((90, C)), h: Some((40, C)), off: (Some((20, C)), Some((30, C))), ..KID }),
        a(Kid { dock: Some(Dock::Bottom), ..KID }),
    ];
    // 1. Every sequence of children, every alignment and layout.
    let len = ctx.pick(3, 4);
    let nk = kinds.len() as u64;
    let dec = |i: u64| -> Vec<Kid> { seq_at(i, nk, len).iter().map(|x| kinds[*x].clone()).collect() };
    ctx.explore(&format!("every sequence of up to {len} children by role, in every layout and alignment"), seq_count(nk, len), |i| shows(&dec(i)), |i, w| {
        let k = dec(i);
        for s in &sps {
            for l in LAY { for ah in AH { for av in AV {
                judge_all(&Parent { layout: l, ah, av, layers: None }, &k, s, w)?;
            } } }
        }
        w.state(&i);
        Ok(())
    });
    // 2. Layers: every assignment of up to four children to layers, every declaration.
    let names = [None, Some("default"), Some("a"), Some("b"), Some("c")];
    let roles = [0usize, 1, 4, 7, 12];
    let decls: Vec<Option<Vec<&'static str>>> = vec![None, Some(vec![]), Some(vec!["a"]), Some(vec!["b", "a"]), Some(vec!["default", "a"]), Some(vec!["a", "default"]), Some(vec!["c", "b", "a", "default"])];
    let n2 = ctx.pick(3, 4);
    let kk = (names.len() * roles.len()) as u64;
    let dec2 = |i: u64| -> Vec<Kid> { seq_at(i, kk, n2).iter().map(|x| Kid { layer: names[*x % names.len()], ..kinds[roles[*x / names.len()]].clone() }).collect() };
    ctx.explore(&format!("every assignment of up to {n2} children to layers"), seq_count(kk, n2), |i| shows(&dec2(i)), |i, w| {
        let k = dec2(i);
        for dl in &decls {
            for (ah, av) in [(AH[0], AV[0]), (AH[1], AV[2])] {
                judge_all(&Parent { layout: Layout::Vertical, ah, av, layers: dl.clone() }, &k, &sps[1], w)?;
            }
        }
        Ok(())
    });
    let perm = |i: u64| -> Vec<Kid> { let mut m = Mix(i); (0..5).map(|_| Kid { layer: names[m.pick(5)], ..KID }).collect() };
    ctx.explore("every assignment of five children to five layers", 5u64.pow(5), |i| shows(&perm(i)), |i, w| {
        for dl in &decls {
            judge_all(&Parent { layers: dl.clone(), layout: Layout::Horizontal, ..PARENT }, &perm(i), &sps[0], w)?;
        }
        Ok(())
    });
    // 3. Absolute children: every size.
    let (ls, lm) = (lens(), limits());
    let n3 = (ls.len() * ls.len() * lm.len() * lm.len() * 3 * 2) as u64;
    let dec3 = |i: u64| {
        let mut m = Mix(i);
        let mut k = a(KID);
        k.w = *m.of(&ls);
        k.h = *m.of(&ls);
        (k.maxw, k.minw) = *m.of(&lm);
        (k.maxh, k.minh) = *m.of(&lm);
        match m.pick(3) { 1 => k.chrome = true, 2 => { k.chrome = true; k.content_box = true } _ => {} }
        if m.pick(2) == 1 { k.desired = (FILL, FILL) }
        vec![KID, d(Dock::Top, 3, 2), k, d(Dock::Left, 3, 2)]
    };
    ctx.explore("absolute child, every combination of sizes and limits", n3, |i| shows(&dec3(i)), |i, w| {
        for s in &sps { judge_all(&PARENT, &dec3(i), s, w)?; }
        Ok(())
    });
    // 4. Offsets of every unit, on every role.
    let offs: Vec<Option<Len>> = [None, Some((0, C)), Some((25, C)), Some((-30, C))].into_iter().chain([P, W_, H_, VW, VH].into_iter().flat_map(|u| [Some((290, u)), Some((-500, u)), Some((1000, u)), Some((70, u))])).collect();
    let n4 = (offs.len() * offs.len() * kinds.len()) as u64;
    let dec4 = |i: u64| { let mut m = Mix(i); let off = (*m.of(&offs), *m.of(&offs)); vec![kinds[1].clone(), Kid { off, ..m.of(&kinds).clone() }, KID] };
    ctx.explore("every offset of every kind of child", n4, |i| shows(&dec4(i)), |i, w| {
        for s in &sps { for l in LAY { judge_all(&Parent { layout: l, ah: AH[1], ..PARENT }, &dec4(i), s, w)?; } }
        Ok(())
    });
    // 5. Alignment in every size.
    let lmax = ctx.pick(60, 120) as u64;
    ctx.explore(&format!("alignment in every size up to {lmax}"), lmax * lmax * 9, |i| { let mut m = Mix(i); format!("{}x{} {:?} {:?}", m.pick(lmax), m.pick(lmax), m.of(&AH), m.of(&AV)) }, |i, w| {
        let mut m = Mix(i);
        let (x, y, ah, av) = (m.pick(lmax) as i32, m.pick(lmax) as i32, *m.of(&AH), *m.of(&AV));
        let s = sp(2, 1, x, y, 70, 80);
        let kids = [Kid { w: Some((90, C)), h: Some((20, C)), margin: [1, 2, 0, 3], ..KID }, Kid { w: Some((0, AUTO)), h: Some((0, AUTO)), margin: [2, 0, 1, 0], ..KID }];
        for l in LAY { judge_all(&Parent { layout: l, ah, av, layers: None }, &kids, &s, w)?; }
        Ok(())
    });
}

fn main() {
    main_with(&[("C12", c12), ("C13", c13), ("C14", c14)]);
}
