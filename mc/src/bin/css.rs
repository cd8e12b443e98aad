//! C06 stylesheet parsing, C07 selectors, C08 cascade, C09 nesting, C10 variables and
//! themes, C30 colours.
use mc::*;
use tcss::parser::cascade::{compute_style, WidgetMeta, WidgetStates};
use tcss::parser::{parse_stylesheet, StyleSheet};
use tcss::types::border::{Border, BorderEdge, BorderKind};
use tcss::types::geometry::{Scalar, Spacing, Unit};
use tcss::types::hatch::{Hatch, HatchPattern};
use tcss::types::keyline::{Keyline, KeylineStyle};
use tcss::types::theme::ColorSystem;
use tcss::types::*;

fn main() {
    main_with(&[("C06", c06), ("C07", c07), ("C08", c08), ("C09", c09), ("C10", c10), ("C30", c30)]);
}

fn meta(t: &'static str) -> WidgetMeta {
    WidgetMeta { type_name: t, type_names: vec![t], id: None, classes: vec![], states: WidgetStates::empty() }
}

fn parse(css: &str) -> Result<StyleSheet, String> {
    parse_stylesheet(css).map_err(|e| format!("does not parse: {e}"))
}

fn theme() -> Theme {
    Theme::new("plain", true)
}

// ---------------------------------------------------------------------------
// What each declaration means.

type Eff = std::sync::Arc<dyn Fn(&mut ComputedStyle) + Send + Sync>;

#[derive(Clone)]
struct Decl {
    text: String,
    eff: Eff,
}

fn d(text: impl Into<String>, f: impl Fn(&mut ComputedStyle) + Send + Sync + 'static) -> Decl {
    Decl { text: text.into(), eff: std::sync::Arc::new(f) }
}

fn sc(v: f64, u: Unit) -> Scalar {
    Scalar { value: v, unit: u }
}

fn scalars() -> Vec<(&'static str, Scalar)> {
    use Unit::*;
    vec![
        ("10", sc(10.0, Cells)), ("0", sc(0.0, Cells)), ("-3", sc(-3.0, Cells)), ("50%", sc(50.0, Percent)), ("12.5%", sc(12.5, Percent)),
        ("2fr", sc(2.0, Fraction)), ("1.5fr", sc(1.5, Fraction)), ("30vw", sc(30.0, ViewWidth)), ("40vh", sc(40.0, ViewHeight)),
        ("25w", sc(25.0, Width)), ("75h", sc(75.0, Height)), ("auto", Scalar { value: 0.0, unit: Auto }),
    ]
}

fn colours() -> Vec<(&'static str, RgbaColor)> {
    let c = RgbaColor::rgba;
    vec![
        ("red", c(255, 0, 0, 1.0)), ("#123", c(0x11, 0x22, 0x33, 1.0)), ("#A1b2C3", c(0xa1, 0xb2, 0xc3, 1.0)),
        ("rgb(1, 2, 3)", c(1, 2, 3, 1.0)), ("rgba(9,8,7,0.5)", c(9, 8, 7, 0.5)), ("hsl(120, 100%, 50%)", c(0, 255, 0, 1.0)),
        ("blue 40%", c(0, 0, 255, 0.4)), ("transparent", c(0, 0, 0, 0.0)), ("DodgerBlue", c(30, 144, 255, 1.0)),
    ]
}

fn kinds() -> Vec<(&'static str, BorderKind)> {
    use BorderKind::*;
    vec![
        ("none", None), ("hidden", None), ("ascii", Ascii), ("blank", Blank), ("block", Block), ("dashed", Dashed), ("double", Double),
        ("heavy", Heavy), ("hkey", Hkey), ("inner", Inner), ("outer", Outer), ("panel", Panel), ("round", Round), ("solid", Solid),
        ("tall", Tall), ("thick", Thick), ("vkey", Vkey), ("wide", Wide),
    ]
}

fn text_style(words: &str) -> TextStyle {
    let mut t = TextStyle::default();
    for w in words.split_whitespace() {
        match w {
            "none" => t = TextStyle::default(),
            "bold" => t.bold = true,
            "dim" => t.dim = true,
            "italic" => t.italic = true,
            "underline" => t.underline = true,
            "underline2" => t.underline2 = true,
            "blink" => t.blink = true,
            "blink2" => t.blink2 = true,
            "reverse" => t.reverse = true,
            "strike" => t.strike = true,
            "overline" => t.overline = true,
            _ => unreachable!(),
        }
    }
    t
}

fn merge(a: &mut TextStyle, b: &TextStyle) {
    a.bold |= b.bold;
    a.dim |= b.dim;
    a.italic |= b.italic;
    a.underline |= b.underline;
    a.underline2 |= b.underline2;
    a.blink |= b.blink;
    a.blink2 |= b.blink2;
    a.reverse |= b.reverse;
    a.strike |= b.strike;
    a.overline |= b.overline;
}

/// Every supported property with every form of value.
fn table(full: bool) -> Vec<Decl> {
    let mut v: Vec<Decl> = vec![];
    macro_rules! each {
        ($vals:expr, $n:expr, $( $name:literal => |$s:ident, $x:ident| $body:expr ),* $(,)?) => {
            let vals: Vec<_> = $vals.into_iter().collect();
            $( for (t, val) in vals.clone().into_iter().take(if full { usize::MAX } else { $n }) {
                v.push(d(format!("{}: {}", $name, t), move |$s: &mut ComputedStyle| { let $x = val.clone(); $body }));
            } )*
        };
    }
    each!(colours(), 2,
        "color" => |s, x| { s.color = Some(x); s.auto_color = false },
        "background" => |s, x| s.background = Some(x),
        "tint" => |s, x| s.tint = Some(x),
        "background-tint" => |s, x| s.background_tint = Some(x),
        "scrollbar-color" => |s, x| s.scrollbar.color = Some(x),
        "scrollbar-color-hover" => |s, x| s.scrollbar.color_hover = Some(x),
        "scrollbar-color-active" => |s, x| s.scrollbar.color_active = Some(x),
        "scrollbar-background" => |s, x| s.scrollbar.background = Some(x),
        "scrollbar-background-hover" => |s, x| s.scrollbar.background_hover = Some(x),
        "scrollbar-background-active" => |s, x| s.scrollbar.background_active = Some(x),
        "scrollbar-corner-color" => |s, x| s.scrollbar.corner_color = Some(x),
        "link-color" => |s, x| s.link.color = Some(x),
        "link-color-hover" => |s, x| s.link.color_hover = Some(x),
        "link-background" => |s, x| s.link.background = Some(x),
        "link-background-hover" => |s, x| s.link.background_hover = Some(x),
        "border-title-color" => |s, x| s.border_title_color = Some(x),
        "border-subtitle-color" => |s, x| s.border_subtitle_color = Some(x),
        "border-title-background" => |s, x| s.border_title_background = Some(x),
        "border-subtitle-background" => |s, x| s.border_subtitle_background = Some(x),
    );
    v.push(d("color: auto", |s| { s.color = Some(RgbaColor::auto(1.0)); s.auto_color = true }));
    v.push(d("color: auto 87%", |s| { s.color = Some(RgbaColor::auto(0.87)); s.auto_color = true }));
    each!(scalars(), 2,
        "width" => |s, x| s.width = Some(x),
        "height" => |s, x| s.height = Some(x),
        "min-width" => |s, x| s.min_width = Some(x),
        "max-width" => |s, x| s.max_width = Some(x),
        "min-height" => |s, x| s.min_height = Some(x),
        "max-height" => |s, x| s.max_height = Some(x),
        "margin-top" => |s, x| s.margin.top = x,
        "margin-right" => |s, x| s.margin.right = x,
        "margin-bottom" => |s, x| s.margin.bottom = x,
        "margin-left" => |s, x| s.margin.left = x,
        "padding-top" => |s, x| s.padding.top = x,
        "padding-right" => |s, x| s.padding.right = x,
        "padding-bottom" => |s, x| s.padding.bottom = x,
        "padding-left" => |s, x| s.padding.left = x,
        "offset-x" => |s, x| s.offset_x = Some(x),
        "offset-y" => |s, x| s.offset_y = Some(x),
    );
    let sp = |t: f64, r: f64, b: f64, l: f64| {
        let f = |x| sc(x, Unit::Cells);
        Spacing { top: f(t), right: f(r), bottom: f(b), left: f(l) }
    };
    each!(vec![("1 2 3 4", sp(1., 2., 3., 4.)), ("5", sp(5., 5., 5., 5.)), ("1 2", sp(1., 2., 1., 2.))], 2,
        "margin" => |s, x| s.margin = x,
        "padding" => |s, x| s.padding = x,
    );
    // Borders: kind, kind colour, colour kind.
    let mut edges: Vec<(String, BorderEdge)> = vec![];
    for (n, k) in kinds() {
        edges.push((n.into(), BorderEdge { kind: k, color: None }));
        for (cn, c) in colours() {
            edges.push((format!("{n} {cn}"), BorderEdge { kind: k, color: Some(c.clone()) }));
            edges.push((format!("{cn} {n}"), BorderEdge { kind: k, color: Some(c) }));
        }
    }
    if !full {
        edges = edges.into_iter().step_by(97).collect();
    }
    each!(edges.clone(), 2,
        "border" => |s, x| s.border = Border { top: x.clone(), right: x.clone(), bottom: x.clone(), left: x },
        "outline" => |s, x| s.outline = Border { top: x.clone(), right: x.clone(), bottom: x.clone(), left: x },
    );
    let edges: Vec<_> = edges.into_iter().step_by(if full { 7 } else { 1 }).collect();
    each!(edges, 2,
        "border-top" => |s, x| s.border.top = x,
        "border-right" => |s, x| s.border.right = x,
        "border-bottom" => |s, x| s.border.bottom = x,
        "border-left" => |s, x| s.border.left = x,
        "outline-top" => |s, x| s.outline.top = x,
        "outline-right" => |s, x| s.outline.right = x,
        "outline-bottom" => |s, x| s.outline.bottom = x,
        "outline-left" => |s, x| s.outline.left = x,
    );
    each!(vec![("0", 0u16), ("3", 3), ("65535", 65535)], 2,
        "scrollbar-size-horizontal" => |s, x| s.scrollbar.size.horizontal = x,
        "scrollbar-size-vertical" => |s, x| s.scrollbar.size.vertical = x,
        "scrollbar-size" => |s, x| { s.scrollbar.size.horizontal = x; s.scrollbar.size.vertical = x },
        "column-span" => |s, x| s.grid_placement.column_span = x,
        "row-span" => |s, x| s.grid_placement.row_span = x,
        "line-pad" => |s, x| s.line_pad = x,
        "grid-size" => |s, x| { s.grid.columns = Some(x); s.grid.rows = None },
    );
    v.push(d("scrollbar-size: 2 5", |s| { s.scrollbar.size.horizontal = 2; s.scrollbar.size.vertical = 5 }));
    v.push(d("grid-size: 2 5", |s| { s.grid.columns = Some(2); s.grid.rows = Some(5) }));
    each!(vec![("auto", ScrollbarGutter::Auto), ("stable", ScrollbarGutter::Stable)], 9, "scrollbar-gutter" => |s, x| s.scrollbar.gutter = x);
    each!(vec![("visible", ScrollbarVisibility::Visible), ("hidden", ScrollbarVisibility::Hidden)], 9, "scrollbar-visibility" => |s, x| s.scrollbar.visibility = x);
    each!(vec![("content-box", BoxSizing::ContentBox), ("border-box", BoxSizing::BorderBox)], 9, "box-sizing" => |s, x| s.box_sizing = x);
    each!(vec![("block", Display::Block), ("none", Display::None)], 9, "display" => |s, x| s.display = x);
    each!(vec![("visible", Visibility::Visible), ("hidden", Visibility::Hidden)], 9, "visibility" => |s, x| { s.visibility = x; s.visibility_set = true });
    each!(vec![("0.5", 0.5f64), ("25%", 0.25), ("0%", 0.0), ("100%", 1.0), ("1", 1.0), ("250%", 1.0), ("-1", 0.0)], 2,
        "opacity" => |s, x| s.opacity = x,
        "text-opacity" => |s, x| s.text_opacity = x,
    );
    each!(vec![("relative", Position::Relative), ("absolute", Position::Absolute)], 9, "position" => |s, x| s.position = x);
    let ov = [("hidden", Overflow::Hidden), ("auto", Overflow::Auto), ("scroll", Overflow::Scroll)];
    each!(ov, 9,
        "overflow-x" => |s, x| s.overflow_x = x,
        "overflow-y" => |s, x| s.overflow_y = x,
        "overflow" => |s, x| { s.overflow_x = x; s.overflow_y = x },
    );
    for (a, x) in ov {
        for (b, y) in ov {
            v.push(d(format!("overflow: {a} {b}"), move |s| { s.overflow_x = x; s.overflow_y = y }));
        }
    }
    each!(vec![("vertical", Layout::Vertical), ("horizontal", Layout::Horizontal), ("grid", Layout::Grid)], 9, "layout" => |s, x| s.layout = x);
    each!(vec![("top", Dock::Top), ("bottom", Dock::Bottom), ("left", Dock::Left), ("right", Dock::Right)], 9, "dock" => |s, x| s.dock = Some(x));
    v.push(d("layers: below above", |s| s.layers = Some(vec!["below".into(), "above".into()])));
    v.push(d("layers: one", |s| s.layers = Some(vec!["one".into()])));
    v.push(d("layer: above", |s| s.layer = Some("above".into())));
    let list = |t: &[&str]| -> Vec<Scalar> { t.iter().map(|x| scalars().iter().find(|(n, _)| n == x).unwrap().1).collect() };
    let l1 = list(&["2fr", "10", "auto"]);
    let l2 = list(&["50%"]);
    each!(vec![("2fr 10 auto", l1), ("50%", l2)], 9,
        "grid-columns" => |s, x| s.grid.column_widths = x,
        "grid-rows" => |s, x| s.grid.row_heights = x,
    );
    v.push(d("grid-gutter: 1", |s| s.grid.gutter = (sc(1., Unit::Cells), sc(1., Unit::Cells))));
    v.push(d("grid-gutter: 1 2", |s| s.grid.gutter = (sc(1., Unit::Cells), sc(2., Unit::Cells))));
    let mut styles: Vec<(String, TextStyle)> = vec![];
    let words = ["bold", "dim", "italic", "underline", "underline2", "blink", "blink2", "reverse", "strike", "overline"];
    for (i, a) in words.iter().enumerate() {
        styles.push((a.to_string(), text_style(a)));
        for b in &words[i + 1..] {
            let t = format!("{a} {b}");
            styles.push((t.clone(), text_style(&t)));
        }
    }
    for t in ["none", "bold none", "none bold", "Bold ITALIC"] {
        styles.push((t.to_string(), text_style(&t.to_lowercase())));
    }
    if !full {
        styles = styles.into_iter().step_by(13).collect();
    }
    each!(styles, 3,
        "text-style" => |s, x| merge(&mut s.text_style, &x),
        "border-title-style" => |s, x| merge(&mut s.border_title_style, &x),
        "border-subtitle-style" => |s, x| merge(&mut s.border_subtitle_style, &x),
        "link-style" => |s, x| s.link.style = x,
        "link-style-hover" => |s, x| s.link.style_hover = x,
    );
    each!(vec![("left", TextAlign::Left), ("center", TextAlign::Center), ("right", TextAlign::Right), ("justify", TextAlign::Justify),
        ("start", TextAlign::Start), ("end", TextAlign::End)], 2, "text-align" => |s, x| s.text_align = x);
    each!(vec![("clip", TextOverflow::Clip), ("fold", TextOverflow::Fold), ("ellipsis", TextOverflow::Ellipsis)], 9, "text-overflow" => |s, x| s.text_overflow = x);
    each!(vec![("wrap", TextWrap::Wrap), ("nowrap", TextWrap::NoWrap)], 9, "text-wrap" => |s, x| s.text_wrap = x);
    let hs = [("left", AlignHorizontal::Left), ("center", AlignHorizontal::Center), ("right", AlignHorizontal::Right)];
    let vs = [("top", AlignVertical::Top), ("middle", AlignVertical::Middle), ("bottom", AlignVertical::Bottom)];
    each!(hs, 9,
        "content-align-horizontal" => |s, x| s.content_align_horizontal = x,
        "align-horizontal" => |s, x| s.align_horizontal = x,
        "border-title-align" => |s, x| s.border_title_align = x,
        "border-subtitle-align" => |s, x| s.border_subtitle_align = x,
    );
    each!(vs, 9,
        "content-align-vertical" => |s, x| s.content_align_vertical = x,
        "align-vertical" => |s, x| s.align_vertical = x,
    );
    for (a, x) in hs {
        for (b, y) in vs {
            v.push(d(format!("content-align: {a} {b}"), move |s| { s.content_align_horizontal = x; s.content_align_vertical = y }));
            v.push(d(format!("align: {a} {b}"), move |s| { s.align_horizontal = x; s.align_vertical = y }));
        }
    }
    let hp = [("left", HatchPattern::Left), ("right", HatchPattern::Right), ("cross", HatchPattern::Cross), ("horizontal", HatchPattern::Horizontal),
        ("vertical", HatchPattern::Vertical), ("\"T\"", HatchPattern::Custom('T')), ("'é'", HatchPattern::Custom('é'))];
    for (n, p) in hp {
        let q = p.clone();
        v.push(d(format!("hatch: {n} red"), move |s| s.hatch = Some(Hatch { pattern: p.clone(), color: RgbaColor::rgb(255, 0, 0), opacity: 1.0 })));
        if full {
            // The percentage is the colour's alpha.
            v.push(d(format!("hatch: {n} #123"), move |s| s.hatch = Some(Hatch { pattern: q.clone(), color: RgbaColor::rgb(0x11, 0x22, 0x33), opacity: 1.0 })));
        }
    }
    for (n, k) in [("none", KeylineStyle::None), ("thin", KeylineStyle::Thin), ("heavy", KeylineStyle::Heavy), ("double", KeylineStyle::Double)] {
        v.push(d(format!("keyline: {n} green"), move |s| s.keyline = Keyline { style: k, color: RgbaColor::rgb(0, 128, 0) }));
    }
    for ((a, x), (b, y)) in scalars().into_iter().zip(scalars().into_iter().rev()) {
        v.push(d(format!("offset: {a} {b}"), move |s| { s.offset_x = Some(x); s.offset_y = Some(y) }));
    }
    v
}

fn same(got: &ComputedStyle, want: &ComputedStyle) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    let (g, w) = (format!("{got:#?}"), format!("{want:#?}"));
    let diff: Vec<String> = g
        .lines()
        .zip(w.lines())
        .filter(|(a, b)| a != b)
        .take(4)
        .map(|(a, b)| format!("got `{}` expected `{}`", a.trim(), b.trim()))
        .collect();
    Err(format!("computed style differs: {}", diff.join("; ")))
}

fn c06(ctx: &Ctx) {
    ctx.assume("property values outside the table's forms are checked for absence of panics only");
    // 1. Every short token string: no panic.
    let toks = [
        "A", ".", "#", "&", ":", "{", "}", ";", "$x", "color", "rgb(", ")", "(", "1", "%", "/*", "*/", "//", "\n", " ", "\"", "é", ",", "red", ">",
    ];
    let a = toks.len() as u64;
    let l = ctx.pick(5, 6);
    let n = seq_count(a, l);
    let dec = |i: u64| -> String { seq_at(i, a, l).iter().map(|k| toks[*k]).collect() };
    ctx.explore("every short token string", n, |i| format!("{:?}", dec(i)), |i, w| {
        let s = dec(i);
        let r = catch(|| parse_stylesheet(&s).map(|x| x.rules.len()).ok())?;
        w.step();
        w.outcome(&r);
        Ok(())
    });
    // ... also inside the value of every kind of property.
    let props = [
        "color", "width", "margin", "border", "hatch", "keyline", "opacity", "text-style", "layers", "layer", "grid-size", "grid-columns", "grid-gutter", "offset",
        "scrollbar-size", "overflow", "content-align", "dock", "line-pad", "foo",
    ];
    let vt = ["red", "1", "99999", "-", ".", "%", "fr", "vw", "auto", "\"", "'", "é", "(", ")", "rgb", "hsl", "#", "$", " ", ",", "!important", "solid", "none"];
    let va = vt.len() as u64;
    let vl = ctx.pick(4, 5);
    let nv = seq_count(va, vl);
    let decv = |i: u64| -> String {
        let p = props[(i % props.len() as u64) as usize];
        let v: String = seq_at(i / props.len() as u64, va, vl).iter().map(|k| vt[*k]).collect();
        format!("A {{ {p}: {v}; }} B {{ height: 3; }}")
    };
    ctx.explore("every short value of every kind of property", nv * props.len() as u64, |i| format!("{:?}", decv(i)), |i, w| {
        let s = decv(i);
        let r = catch(|| parse_stylesheet(&s))?;
        w.step();
        if let Ok(sheet) = r {
            // Whatever the first rule became, the second one is intact.
            let st = compute_style(&meta("B"), &[], &sheet, &theme());
            ensure!(st.height == Some(Scalar::cells(3.0)), "the rule after it was lost: height {:?}", st.height);
            let mut other = st.clone();
            other.height = None;
            ensure!(other == ComputedStyle::default(), "the declaration leaked into another rule");
            w.outcome(&1);
        } else {
            w.outcome(&0);
        }
        Ok(())
    });
    // 2. Every value form of every property, in several spellings.
    let tab = table(true);
    let spell: Vec<Box<dyn Fn(&str) -> String + Sync + Send>> = vec![
        Box::new(|t| format!("A {{ {t}; }}")),
        Box::new(|t| format!("A{{{t}}}")),
        Box::new(|t| format!("\n\tA\r\n{{\n  {};\n}}\n", t.replacen(": ", ":", 1))),
        Box::new(|t| format!("A{{/*x*/{};/*y;}}*/}}", t.replacen(": ", " : /* { */ ", 1))),
        Box::new(|t| format!("// A {{ color: green; }}\nA {{ // c\n {t}; // d }}\n}}")),
        Box::new(|t| format!("A {{ foo: bar; {t}; baz-qux: a(1, \"x\") #y }}")),
        Box::new(|t| format!("B {{ foo: bar }} A {{ {t} }} B {{ width: 77; foo: bar }}")),
        Box::new(|t| format!("B {{ width: 77 }} C, A {{ {t} }}")),
    ];
    let n = tab.len() as u64 * spell.len() as u64;
    let show = |i: u64| format!("{:?}", spell[(i % spell.len() as u64) as usize](&tab[(i / spell.len() as u64) as usize].text));
    ctx.explore("every property x value form x spelling", n, show, |i, w| {
        let css = spell[(i % spell.len() as u64) as usize](&tab[(i / spell.len() as u64) as usize].text);
        let sheet = parse(&css)?;
        let mut want = ComputedStyle::default();
        (tab[(i / spell.len() as u64) as usize].eff)(&mut want);
        same(&compute_style(&meta("A"), &[], &sheet, &theme()), &want)?;
        w.step();
        w.outcome(&format!("{want:?}"));
        Ok(())
    });
    // 3. Sequences of items inside a rule, followed by another rule.
    let small = table(false);
    let mut items: Vec<(String, Option<Eff>)> = vec![
        ("foo: bar".into(), None),
        ("-x-y: 1 2".into(), None),
        ("foo: \"q\" (z)".into(), None),
        ("foo:".into(), None),
    ];
    for i in (0..small.len()).step_by(small.len() / 7) {
        items.push((small[i].text.clone(), Some(small[i].eff.clone())));
    }
    let seps = [";", " ;\n", "; /* c */ "];
    let last = ["", ";", "; "];
    let after = ["B{height:3}", "\n/* z */ B { foo: 1 } B { height: 3; }"];
    let il = ctx.pick(4, 5);
    let nseq = seq_count(items.len() as u64, il);
    let per = (seps.len() * last.len() * after.len()) as u64;
    let build = |i: u64| -> (String, Vec<usize>) {
        let mut m = Mix(i % per);
        let (s, e, f) = (m.of(&seps), m.of(&last), m.of(&after));
        let q = seq_at(i / per, items.len() as u64, il);
        let body: Vec<&str> = q.iter().map(|k| items[*k].0.as_str()).collect();
        (format!("A {{ {}{} }}{}", body.join(s), if q.is_empty() { "" } else { e }, f), q)
    };
    ctx.explore("item sequences in a rule", nseq * per, |i| format!("{:?}", build(i).0), |i, w| {
        let (css, q) = build(i);
        let sheet = parse(&css)?;
        let mut want = ComputedStyle::default();
        for k in &q {
            if let Some(e) = &items[*k].1 {
                e(&mut want);
            }
        }
        same(&compute_style(&meta("A"), &[], &sheet, &theme()), &want)?;
        let mut b = ComputedStyle::default();
        b.height = Some(Scalar::cells(3.0));
        same(&compute_style(&meta("B"), &[], &sheet, &theme()), &b).map_err(|e| format!("the following rule: {e}"))?;
        w.steps(q.len() as u64 + 1);
        w.outcome(&format!("{want:?}"));
        Ok(())
    });
    // 4. An invalid value in a top-level rule is reported, never half-applied.
    let bad = ["color: nosuchcolour", "width: wide", "margin: x", "border: 3", "dock: middle", "layout: diagonal", "text-style: fat", "opacity: much", "grid-size: a", "offset: 1",
        "overflow: maybe", "align: middle center", "color: #12345", "color: rgb(1,2)", "color: rgb(1,2,300)", "scrollbar-size: -1", "visibility: none", "display: hidden"];
    ctx.explore("invalid values", bad.len() as u64 * 2, |i| format!("{:?} {}", bad[(i / 2) as usize], i % 2), |i, w| {
        let css = if i % 2 == 0 { format!("A {{ {}; }}", bad[(i / 2) as usize]) } else { format!("B {{ width: 1; }} A {{ height: 2; {} }}", bad[(i / 2) as usize]) };
        w.step();
        w.outcome(&css);
        ensure!(parse_stylesheet(&css).is_err(), "an invalid value is accepted silently");
        Ok(())
    });
}

// ---------------------------------------------------------------------------
// Selectors.

#[derive(Clone, Debug, PartialEq)]
struct Node {
    ty: &'static str,
    /// Base types, nearest first.
    base: Vec<&'static str>,
    id: Option<&'static str>,
    classes: Vec<&'static str>,
    states: u8,
}

fn node_meta(n: &Node) -> WidgetMeta {
    let mut t = vec![n.ty];
    t.extend(n.base.iter().copied());
    let mut st = WidgetStates::empty();
    for (k, f) in [WidgetStates::FOCUS, WidgetStates::HOVER, WidgetStates::ACTIVE, WidgetStates::DISABLED].into_iter().enumerate() {
        if n.states >> k & 1 == 1 {
            st |= f;
        }
    }
    WidgetMeta { type_name: n.ty, type_names: t, id: n.id.map(|s| s.into()), classes: n.classes.iter().map(|s| s.to_string()).collect(), states: st }
}

fn simple_matches(s: &str, n: &Node, dark: bool) -> bool {
    match s.as_bytes()[0] {
        b'*' => true,
        b'#' => n.id == Some(&s[1..]),
        b'.' => n.classes.contains(&&s[1..]),
        b':' => match &s[1..] {
            "focus" => n.states & 1 != 0,
            "hover" => n.states & 2 != 0,
            "active" => n.states & 4 != 0,
            "disabled" => n.states & 8 != 0,
            "dark" => dark,
            "light" => !dark,
            _ => false,
        },
        _ => n.ty == s || n.base.contains(&s),
    }
}

/// `parts`: compounds from left to right; `child[i]`: is part i+1 a child of part i?
/// `chain`: the widget's ancestors from the root down to the widget itself.
fn m_matches(parts: &[&[&str]], child: &[bool], chain: &[Node], dark: bool) -> bool {
    let (Some(w), Some(p)) = (chain.last(), parts.last()) else { return false };
    if !p.iter().all(|s| simple_matches(s, w, dark)) {
        return false;
    }
    if parts.len() == 1 {
        return true;
    }
    let up = &chain[..chain.len() - 1];
    let rest = &parts[..parts.len() - 1];
    let ch = &child[..child.len() - 1];
    if child[child.len() - 1] {
        m_matches(rest, ch, up, dark)
    } else {
        (1..=up.len()).any(|k| m_matches(rest, ch, &up[..k], dark))
    }
}

fn sel_text(parts: &[&[&str]], child: &[bool], tight: bool) -> String {
    let mut s = String::new();
    for (i, p) in parts.iter().enumerate() {
        if i > 0 {
            s.push_str(match (child[i - 1], tight) {
                (true, true) => ">",
                (true, false) => " > ",
                _ => " ",
            });
        }
        s.push_str(&p.concat());
    }
    s
}

fn applies(css: &str, chain: &[Node], dark: bool) -> Result<bool, String> {
    let sheet = parse(css)?;
    let metas: Vec<WidgetMeta> = chain.iter().rev().map(node_meta).collect();
    let st = compute_style(&metas[0], &metas[1..], &sheet, &Theme::new("plain", dark));
    Ok(st.width.is_some())
}

fn c07(ctx: &Ctx) {
    ctx.assume("sibling combinators and attribute selectors are not supported by the matcher and are excluded");
    let nd = |ty: &'static str, base, id, classes: Vec<&'static str>, states| Node { ty, base, id, classes, states };
    // 1. All chains x all selectors over a small alphabet.
    let kinds = [
        nd("A", vec![], None, vec![], 0),
        nd("B", vec![], None, vec![], 0),
        nd("A", vec![], None, vec!["c"], 0),
        nd("B", vec![], Some("i"), vec!["c", "d"], 0),
    ];
    let comps: Vec<Vec<&str>> = vec![vec!["A"], vec!["B"], vec!["*"], vec![".c"], vec!["A", ".c"]];
    let depth = ctx.pick(5u32, 6);
    let maxp = 4u32;
    let nchains: u64 = (1..=depth).map(|k| (kinds.len() as u64).pow(k)).sum();
    let chain_at = |mut i: u64| -> Vec<Node> {
        for k in 1..=depth {
            let n = (kinds.len() as u64).pow(k);
            if i < n {
                let mut m = Mix(i);
                return (0..k).map(|_| m.of(&kinds).clone()).collect();
            }
            i -= n;
        }
        unreachable!()
    };
    let c = comps.len() as u64;
    let nsel: u64 = (1..=maxp).map(|k| c.pow(k) << (k - 1)).sum();
    let sel_at = |mut i: u64| -> (Vec<usize>, Vec<bool>) {
        for k in 1..=maxp {
            let n = c.pow(k) << (k - 1);
            if i < n {
                let mut m = Mix(i);
                let p = (0..k).map(|_| m.pick(c)).collect();
                let ch = (1..k).map(|_| m.pick(2) == 1).collect();
                return (p, ch);
            }
            i -= n;
        }
        unreachable!()
    };
    let metas: Vec<(Vec<Node>, Vec<WidgetMeta>)> = (0..nchains).map(|i| { let ch = chain_at(i); let m = ch.iter().rev().map(node_meta).collect(); (ch, m) }).collect();
    let text = |i: u64| {
        let (p, ch) = sel_at(i);
        let parts: Vec<&[&str]> = p.iter().map(|k| comps[*k].as_slice()).collect();
        sel_text(&parts, &ch, i % 2 == 0)
    };
    let th = theme();
    ctx.explore(&format!("selectors x every ancestor chain up to depth {depth}"), nsel, text, |i, w| {
        let (p, ch) = sel_at(i);
        let parts: Vec<&[&str]> = p.iter().map(|k| comps[*k].as_slice()).collect();
        let sheet = parse(&format!("{} {{ width: 1; }}", sel_text(&parts, &ch, i % 2 == 0)))?;
        for (chain, ms) in &metas {
            let got = compute_style(&ms[0], &ms[1..], &sheet, &th).width.is_some();
            let want = m_matches(&parts, &ch, chain, true);
            ensure!(got == want, "chain {:?}: applies={got}, by definition {want}", chain.iter().map(|n| format!("{}{}{}", n.ty, n.id.map(|x| format!("#{x}")).unwrap_or_default(), n.classes.iter().map(|c| format!(".{c}")).collect::<String>())).collect::<Vec<_>>());
            w.step();
            w.outcome(&(i, got));
        }
        Ok(())
    });
    // 2. Every compound of up to 3 simple selectors x every node.
    let simples = ["A", "B", "Base", "Mid", "*", "#i", "#j", ".c", ".d", ".c-d", ":focus", ":hover", ":active", ":disabled", ":dark", ":light", ":nosuch"];
    let mut nodes = vec![];
    for ty in ["A", "B"] {
        for base in [vec![], vec!["Base"], vec!["Mid", "Base"], vec!["Near", "Mid", "Base"]] {
            for id in [None, Some("i"), Some("j")] {
                for cl in 0..8u8 {
                    for st in 0..16u8 {
                        let classes = ["c", "d", "c-d"].iter().enumerate().filter(|(k, _)| cl >> k & 1 == 1).map(|(_, s)| *s).collect();
                        nodes.push(Node { ty, base: base.clone(), id, classes, states: st });
                    }
                }
            }
        }
    }
    let ms: Vec<WidgetMeta> = nodes.iter().map(node_meta).collect();
    let s = simples.len() as u64;
    let l = ctx.pick(3, 4);
    let n = seq_count(s, l) - 1;
    let is_type = |x: &str| x.as_bytes()[0].is_ascii_alphabetic();
    let dec = |i: u64| -> Vec<&str> { seq_at(i + 1, s, l).iter().map(|k| simples[*k]).collect() };
    ctx.explore("compound selectors x every widget state", n, |i| dec(i).concat(), |i, w| {
        let c = dec(i);
        // A type name can only stand first (otherwise it would continue the name before it).
        if c[1..].iter().any(|x| is_type(x)) {
            return Ok(());
        }
        let sheet = parse(&format!("{} {{ width: 1; }}", c.concat()))?;
        for (dark, name) in [(true, "plain"), (false, "plain"), (true, "my-ansi"), (false, "my-ansi"), (true, "no-color"), (false, "nocolor")] {
            if name != "plain" && !c.iter().any(|x| matches!(*x, ":dark" | ":light")) {
                continue;
            }
            let th = Theme::new(name, dark);
            for (nn, m) in nodes.iter().zip(&ms) {
                let got = compute_style(m, &[], &sheet, &th).width.is_some();
                let want = c.iter().all(|x| simple_matches(x, nn, dark));
                ensure!(got == want, "{nn:?} dark={dark}: applies={got}, by definition {want}");
                w.step();
            }
        }
        w.outcome(&i);
        Ok(())
    });
    // 3. Lists: a rule applies iff any selector of its list does.
    let sels = ["A", "B", ".c", "A B", "A > B", "#i", ":hover", "B .c"];
    let chains: Vec<Vec<Node>> = (0..nchains).filter(|i| *i % 3 == 0).map(chain_at).take(120).collect();
    let k = sels.len() as u64;
    let n = k.pow(3);
    ctx.explore("selector lists", n, |i| { let mut m = Mix(i); format!("{}, {},{}", m.of(&sels), m.of(&sels), m.of(&sels)) }, |i, w| {
        let mut m = Mix(i);
        let l: Vec<&str> = (0..3).map(|_| *m.of(&sels)).collect();
        for ch in &chains {
            let got = applies(&format!("{}, {},{} {{ width: 1; }}", l[0], l[1], l[2]), ch, true)?;
            let mut want = false;
            for s in &l {
                want |= applies(&format!("{s} {{ width: 1; }}"), ch, true)?;
            }
            ensure!(got == want, "{ch:?}: {got} vs {want}");
            w.step();
        }
        w.outcome(&i);
        Ok(())
    });
}

// ---------------------------------------------------------------------------
// Cascade.

fn c08(ctx: &Ctx) {
    // The widget: W#w.k.l:hover inside P#p.q inside R.
    let w0 = Node { ty: "W", base: vec!["Base"], id: Some("w"), classes: vec!["k", "l"], states: 2 };
    let chain = [
        Node { ty: "R", base: vec![], id: None, classes: vec![], states: 0 },
        Node { ty: "P", base: vec![], id: Some("p"), classes: vec!["q"], states: 0 },
        w0,
    ];
    let metas: Vec<WidgetMeta> = chain.iter().rev().map(node_meta).collect();
    // (selector, matches, (ids, classes, types))
    let sels: Vec<(&str, Option<(u32, u32, u32)>)> = vec![
        ("*", Some((0, 0, 0))),
        ("W", Some((0, 0, 1))),
        ("Base", Some((0, 0, 1))),
        ("R P W", Some((0, 0, 3))),
        ("R * W", Some((0, 0, 2))),
        (".k", Some((0, 1, 0))),
        ("W.k", Some((0, 1, 1))),
        ("W:hover", Some((0, 1, 1))),
        (".k.l", Some((0, 2, 0))),
        ("P.q > W.k:hover", Some((0, 3, 2))),
        ("#w", Some((1, 0, 0))),
        ("#p W", Some((1, 0, 1))),
        ("#p #w.k", Some((2, 1, 0))),
        ("X", None),
        ("W:focus", None),
        ("#p.z W", None),
    ];
    let th = theme();
    // 1. Rules with selector lists: which one decides.
    let mut lists: Vec<(String, Option<(u32, u32, u32)>)> = vec![];
    for (a, x) in &sels {
        lists.push((a.to_string(), *x));
    }
    for (a, x) in &sels {
        for (b, y) in &sels {
            if a != b {
                lists.push((format!("{a}, {b}"), (*x).max(*y)));
            }
        }
    }
    let run = |rules: &[(String, Option<(u32, u32, u32)>)], bodies: &[&[&Decl]]| -> Result<(), String> {
        let css: String = rules.iter().zip(bodies).map(|((s, _), b)| format!("{s} {{ {} }}\n", b.iter().map(|x| format!("{};", x.text)).collect::<String>())).collect();
        let sheet = parse(&css)?;
        let got = compute_style(&metas[0], &metas[1..], &sheet, &th);
        let mut order: Vec<usize> = (0..rules.len()).filter(|i| rules[*i].1.is_some()).collect();
        order.sort_by_key(|i| (rules[*i].1.unwrap(), *i));
        let mut want = ComputedStyle::default();
        for i in order {
            for x in bodies[i] {
                (x.eff)(&mut want);
            }
        }
        same(&got, &want).map_err(|e| format!("{css:?}: {e}"))
    };
    let widths: Vec<Decl> = (1..=5).map(|k| d(format!("width: {k}"), move |s| s.width = Some(Scalar::cells(k as f64)))).collect();
    let nl = lists.len() as u64;
    ctx.explore("every pair of rules with selector lists", nl * nl, |i| format!("{} | {}", lists[(i / nl) as usize].0, lists[(i % nl) as usize].0), |i, w| {
        let r = [lists[(i / nl) as usize].clone(), lists[(i % nl) as usize].clone()];
        w.steps(2);
        w.outcome(&(r[0].1 > r[1].1, r[0].1.is_some(), r[1].1.is_some()));
        run(&r, &[&[&widths[0]], &[&widths[1]]])
    });
    let ns = sels.len() as u64;
    let depth = ctx.pick(4u32, 5);
    ctx.explore("every sequence of single-selector rules", ns.pow(depth), |i| { let mut m = Mix(i); (0..depth).map(|_| m.of(&sels).0).collect::<Vec<_>>().join(" | ") }, |i, w| {
        let mut m = Mix(i);
        let r: Vec<_> = (0..depth).map(|_| { let (a, x) = m.of(&sels); (a.to_string(), *x) }).collect();
        let height = d("height: 9", |s| s.height = Some(Scalar::cells(9.0)));
        let b: Vec<Vec<&Decl>> = (0..depth as usize).map(|k| if k == 1 { vec![&widths[k], &height] } else { vec![&widths[k]] }).collect();
        let b: Vec<&[&Decl]> = b.iter().map(|x| x.as_slice()).collect();
        w.steps(depth as u64);
        w.state(&i);
        run(&r, &b)
    });
    // 2. Many low-ranking selectors never outrank one of a higher class.
    let many = |s: &str, n: usize| s.repeat(n);
    let deep: Vec<Node> = (0..20).map(|_| chain[2].clone()).collect();
    let dm: Vec<WidgetMeta> = deep.iter().map(node_meta).collect();
    ctx.explore("long selectors against short ones", 18 * 18 * 3, |i| format!("{i}"), |i, w| {
        let mut m = Mix(i);
        let (a, b, k) = (m.pick(18) + 1, m.pick(18) + 1, m.pick(3));
        let (lo, hi) = match k {
            0 => (many("W ", a) + " W", many("*", 1) + &many(" *", b - 1) + " .k"),
            1 => (many(".k", a), "#w".to_string() + &many(" W", 0)),
            _ => (format!("W{}", many(":hover", a)), format!("* {}#w", many("* ", b - 1))),
        };
        for (x, y) in [(&lo, &hi), (&hi, &lo)] {
            let css = format!("{x} {{ width: {}; }} {y} {{ width: {}; }}", if x == &lo { 1 } else { 2 }, if y == &lo { 1 } else { 2 });
            let st = compute_style(&dm[0], &dm[1..], &parse(&css)?, &th);
            ensure!(st.width == Some(Scalar::cells(2.0)), "{css:?}: the less specific rule wins: {:?}", st.width);
            w.step();
        }
        w.outcome(&k);
        Ok(())
    });
    // 2b. Specificity adds up over all parts of a selector: every selector of up to three
    //     parts built from these compounds, against every other.
    let full = [
        Node { ty: "R", base: vec![], id: Some("r"), classes: vec!["s", "t"], states: 2 },
        Node { ty: "P", base: vec![], id: Some("p"), classes: vec!["q", "u"], states: 2 },
        Node { ty: "W", base: vec!["Base"], id: Some("w"), classes: vec!["k", "l"], states: 2 },
    ];
    let fm: Vec<WidgetMeta> = full.iter().rev().map(node_meta).collect();
    let comp = |n: &Node| -> Vec<(String, (u32, u32, u32))> {
        let (t, i, c, c2) = (n.ty, n.id.unwrap(), n.classes[0], n.classes[1]);
        vec![("*".into(), (0, 0, 0)), (t.into(), (0, 0, 1)), (format!(".{c}"), (0, 1, 0)), (format!("#{i}"), (1, 0, 0)), (format!("{t}:hover"), (0, 1, 1)),
            (format!(".{c2}.{c}"), (0, 2, 0)), (format!("#{i}.{c}"), (1, 1, 0)), (format!("{t}#{i}.{c}:hover"), (1, 2, 1))]
    };
    let cs: Vec<Vec<(String, (u32, u32, u32))>> = full.iter().map(comp).collect();
    let add = |a: (u32, u32, u32), b: (u32, u32, u32)| (a.0 + b.0, a.1 + b.1, a.2 + b.2);
    let mut all: Vec<(String, (u32, u32, u32))> = cs[2].clone();
    for (w, x) in &cs[2] {
        for (p, y) in cs[1].iter().chain(&cs[0]) {
            all.push((format!("{p} {w}"), add(*x, *y)));
        }
        for (p, y) in &cs[1] {
            all.push((format!("{p} > {w}"), add(*x, *y)));
            for (r, z) in &cs[0] {
                all.push((format!("{r} {p} > {w}"), add(add(*x, *y), *z)));
            }
        }
    }
    let na = all.len() as u64;
    ctx.note("selector_pairs", serde_json::json!(na * na));
    ctx.explore("specificity of every pair of selectors of up to 3 parts", na, |i| all[i as usize].0.clone(), |i, w| {
        let (a, x) = &all[i as usize];
        for (b, y) in &all {
            let css = format!("{a} {{ width: 1; }} {b} {{ width: 2; }}");
            let st = compute_style(&fm[0], &fm[1..], &parse(&css)?, &th);
            let want = if x > y { 1.0 } else { 2.0 };
            ensure!(st.width == Some(Scalar::cells(want)), "{css:?}: width {:?}, specificities {x:?} and {y:?}", st.width);
            w.step();
        }
        w.state(a);
        w.outcome(x);
        Ok(())
    });
    // 3. Every ordered pair of declarations: later wins, others untouched; in one rule,
    //    in two rules, and reversed by specificity.
    let t = table(false);
    let n = t.len() as u64;
    ctx.explore("every ordered pair of declarations", n * n, |i| format!("{} / {}", t[(i / n) as usize].text, t[(i % n) as usize].text), |i, w| {
        let (a, b) = (&t[(i / n) as usize], &t[(i % n) as usize]);
        let ty = ("W".to_string(), Some((0, 0, 1)));
        let id = ("#w".to_string(), Some((1, 0, 0)));
        run(&[ty.clone()], &[&[a, b]])?;
        run(&[ty.clone(), ty.clone()], &[&[a], &[b]])?;
        run(&[id.clone(), ty.clone()], &[&[a], &[b]])?;
        w.steps(3);
        w.state(&i);
        Ok(())
    });
}

// ---------------------------------------------------------------------------
// Nested rules.

fn c09(ctx: &Ctx) {
    ctx.assume("'&' stands first in a nested selector, as documented");
    let nd = |ty: &'static str, classes: Vec<&'static str>, states| Node { ty, base: vec![], id: None, classes, states };
    let kinds = [nd("A", vec![], 0), nd("B", vec![], 0), nd("A", vec!["c"], 0), nd("B", vec!["c"], 2)];
    let mut chains = vec![];
    for k in 1..=3u32 {
        for i in 0..4u64.pow(k) {
            let mut m = Mix(i);
            chains.push((0..k).map(|_| m.of(&kinds).clone()).collect::<Vec<Node>>());
        }
    }
    let metas: Vec<Vec<WidgetMeta>> = chains.iter().map(|c| c.iter().rev().map(node_meta).collect()).collect();
    let th = theme();
    let outer = ["A", "B", ".c", "A, B", "A > B"];
    let inner = ["&.c", "&:hover", "& B", "& > B", "&.c B", "& > .c:hover", "B", ".c", "B > A", "&", "&.c, & A", "B, &:hover", "& > A B"];
    // Independent expansion by text substitution.
    fn expand(parents: &[String], sel: &str) -> Vec<String> {
        let mut v = vec![];
        for p in parents {
            for s in sel.split(',').map(|s| s.trim()) {
                v.push(match s.strip_prefix('&') {
                    Some(r) => format!("{p}{r}"),
                    None => format!("{p} {s}"),
                });
            }
        }
        v
    }
    fn split(s: &str) -> Vec<String> {
        s.split(',').map(|x| x.trim().to_string()).collect()
    }
    let check = |nested: &str, flat: &str, w: &mut W| -> Result<(), String> {
        let a = parse(nested)?;
        let b = parse(flat)?;
        for (c, m) in chains.iter().zip(&metas) {
            let x = compute_style(&m[0], &m[1..], &a, &th);
            let y = compute_style(&m[0], &m[1..], &b, &th);
            same(&x, &y).map_err(|e| format!("nested {nested:?} vs flat {flat:?} for {c:?}: {e}"))?;
            w.step();
            w.outcome(&format!("{:?}{:?}{:?}{:?}", x.width, x.height, x.min_width, x.line_pad));
        }
        Ok(())
    };
    let (no, ni) = (outer.len() as u64, inner.len() as u64);
    // o { d1; i { d2; j { d3 } } k { d4 } d5 } followed by a plain rule.
    let build = |i: u64| -> (String, String) {
        let mut m = Mix(i);
        let (o, a, b, c, shape) = (*m.of(&outer), *m.of(&inner), *m.of(&inner), *m.of(&inner), m.pick(4));
        let po = split(o);
        let pa = expand(&po, a);
        let pb = expand(&pa, b);
        let pc = expand(&po, c);
        let (pa, pb, pc) = (pa.join(", "), pb.join(", "), pc.join(", "));
        let tail = "B { line-pad: 3; }";
        match shape {
            0 => (format!("{o} {{ width: 1; {a} {{ width: 2; {b} {{ width: 3; }} }} {c} {{ width: 4; }} }} {tail}"),
                  format!("{o} {{ width: 1; }} {pa} {{ width: 2; }} {pb} {{ width: 3; }} {pc} {{ width: 4; }} {tail}")),
            1 => (format!("{o}{{{a}{{width:2;height:5}}{c}{{height:6}}min-width:7}}{tail}"),
                  format!("{o} {{ min-width: 7; }} {pa} {{ width: 2; height: 5; }} {pc} {{ height: 6; }} {tail}")),
            2 => (format!("{o} {{ {a} {{ {b} {{ height: 3; }} width: 2; }} width: 1; }} {tail}"),
                  format!("{o} {{ width: 1; }} {pa} {{ width: 2; }} {pb} {{ height: 3; }} {tail}")),
            _ => (format!("{tail} {o} {{ color: red; {a} {{ foo: bar; color: blue }} {c} {{ }} height: 8 }}"),
                  format!("{tail} {o} {{ color: red; height: 8; }} {pa} {{ color: blue; }}")),
        }
    };
    let n = no * ni * ni * ni * 4;
    let step = 1;
    ctx.explore("nested stylesheets", n / step, |i| format!("{:?}", build(i * step).0), |i, w| {
        let (a, b) = build(i * step);
        check(&a, &b, w)
    });
}

// ---------------------------------------------------------------------------
// Variables and themes.

fn c10(ctx: &Ctx) {
    // 1. Definitions, chains and uses in every arrangement: equal to textual substitution.
    let vals = ["red", "#123 40%", "3", "2fr", "solid green", "bold italic"];
    let props = [("color", 0), ("background", 1), ("width", 2), ("height", 3), ("border", 4), ("text-style", 5)];
    let names = ["a", "b-c", "primary", "x_1", "Z9", "width"];
    let arr = [
        "$N: V;\n$M: $N;\nA { P: $M; }",
        "$N: V;\nA { P: $N; }",
        "$N: V;\n$M: $N;\nA { P: $N; }\nB { P: $M; }",
        "$N:V\nA{P:$N}",
        "  $N : V ;  \n\nA { P:\n  $N; }",
        "$N: V; $M: $N; A { P: $M; }",
        "$N: V; A { P: $N; }",
        "/* $N: nothing; */\n$N: V; // $N: nothing\nA { P: $N; }",
        "$N: V;\nA { foo: $N; &.c { P: $N; } P: $N }",
        "$NN: nothing;\n$N: V;\n$N-N: nothing;\nA { P: $N; }",
        "A { foo: 1; }\n$N: V;\nA { P: $N; }",
        "$M: V;\n$N: $M;\n$K: $N;\nA { P: $K; }",
        "$N: V; /* note */\nA { P: $N; }",
        "/* note */ $N: V;\nA { P: $N; }",
        "/** $N: nothing; **/\n$N: V;\n/***/\nA { P: $N; }",
        "/* one\n$N: nothing;\n*/\n$N: V;\nA { P: $N; }",
        "/* one\ntwo */ $N: V;\nA { P: $N; }",
        "$N: V; /* one\n$N: nothing; */\nA { P: $N; }",
        "$N: /* note */ V;\nA { P: $N; }",
        "$N: V /* note */;\nA { P: $N; }",
        "$N: V;\n/* a */ /* $N: nothing;\n*/\nA { P: /** b **/ $N; }",
        "/* * / */$N: V;\n/* ** */A { P: $N /* a */; }",
        "A { /* $M: nothing;\n*/ foo: 1; }\n$N: V;\nA { P: $N; }",
        "/* a */\n/* b\n*/ /* c */\n$M: V;\n/* $M: nothing; */ $N: $M;\nA { P: $N; }",
    ];
    let n = (props.len() * names.len() * names.len() * arr.len()) as u64;
    let build = |i: u64| -> (String, String) {
        let mut m = Mix(i);
        let (p, v) = *m.of(&props);
        let (n1, n2, t) = (*m.of(&names), *m.of(&names), *m.of(&arr));
        let n2 = if n1 == n2 { "other" } else { n2 };
        let s = t.replace("$NN", &format!("${n1}{n1}")).replace("$N-N", &format!("${n1}-{n1}")).replace("$N", &format!("${n1}")).replace("$M", &format!("${n2}")).replace("$K", "$kk-third").replace('P', p).replace('V', vals[v]);
        (s, format!("{p}: {}", vals[v]))
    };
    let plain = theme();
    ctx.explore("variable definitions and uses", n, |i| format!("{:?}", build(i).0), |i, w| {
        let (css, decl) = build(i);
        let got = compute_style(&meta("A"), &[], &parse(&css)?, &plain);
        let want = compute_style(&meta("A"), &[], &parse(&format!("A {{ {decl}; }}"))?, &plain);
        same(&got, &want)?;
        ensure!(want != ComputedStyle::default(), "the explorer's own declaration {decl:?} has no effect");
        w.step();
        w.outcome(&decl);
        Ok(())
    });
    // 2. Theme variables: every built-in theme defines every documented variable, and a
    //    reference takes the value of the theme in force.
    let themes = Theme::standard_themes();
    let mut tn: Vec<&String> = themes.keys().collect();
    tn.sort();
    let mut doc: Vec<String> = vec![];
    for b in ["primary", "secondary", "warning", "error", "success", "accent", "foreground", "background", "surface", "panel", "boost"] {
        doc.push(b.into());
        for k in 1..=3 {
            doc.push(format!("{b}-lighten-{k}"));
            doc.push(format!("{b}-darken-{k}"));
        }
    }
    for t in ["text", "text-muted", "text-disabled", "text-primary", "text-secondary", "text-warning", "text-error", "text-success", "text-accent", "scrollbar", "scrollbar-hover", "scrollbar-active",
        "scrollbar-background", "scrollbar-background-hover", "scrollbar-background-active", "scrollbar-corner-color", "link-color", "link-background", "link-color-hover", "link-background-hover", "primary-muted", "secondary-muted", "accent-muted",
        "warning-muted", "error-muted", "success-muted", "border", "border-blurred", "foreground-muted", "foreground-disabled"] {
        doc.push(t.into());
    }
    let cprops: Vec<(&str, fn(&ComputedStyle) -> Option<RgbaColor>)> = vec![
        ("color", |s| s.color.clone()), ("background", |s| s.background.clone()), ("tint", |s| s.tint.clone()), ("background-tint", |s| s.background_tint.clone()),
        ("border-top", |s| s.border.top.color.clone()), ("border", |s| s.border.left.color.clone()), ("outline", |s| s.outline.right.color.clone()),
        ("scrollbar-color", |s| s.scrollbar.color.clone()), ("scrollbar-background-hover", |s| s.scrollbar.background_hover.clone()), ("link-color", |s| s.link.color.clone()),
        ("link-background-hover", |s| s.link.background_hover.clone()), ("border-title-color", |s| s.border_title_color.clone()), ("border-subtitle-background", |s| s.border_subtitle_background.clone()),
        ("hatch", |s| s.hatch.as_ref().map(|h| h.color.clone())), ("keyline", |s| Some(s.keyline.color.clone())), ("border-left", |s| s.border.left.color.clone()), ("outline-bottom", |s| s.outline.bottom.color.clone()),
    ];
    let alphas = ["", " 50%", " 5%"];
    let n = (tn.len() * doc.len() * cprops.len() * alphas.len()) as u64;
    let dec = |i: u64| {
        let mut m = Mix(i);
        (*m.of(&tn), m.of(&doc).clone(), *m.of(&cprops), *m.of(&alphas))
    };
    ctx.note("themes", tn.len().into());
    ctx.explore("theme variables", n, |i| { let (t, v, p, a) = dec(i); format!("{t} {}: ${v}{a}", p.0) }, |i, w| {
        let (t, v, (p, get), a) = dec(i);
        let th = &themes[t];
        let base = th.get_color(&v).ok_or(format!("theme {t} does not define ${v}"))?;
        let pre = match p { "hatch" => "cross ", "keyline" => "thin ", x if x.starts_with("border") && !x.contains("title") || x.starts_with("outline") => "solid ", _ => "" };
        let st = compute_style(&meta("A"), &[], &parse(&format!("A {{ {p}: {pre}${v}{a}; }}"))?, th);
        let got = get(&st).ok_or("not set")?;
        let mut want = base.clone();
        match a {
            "" => {}
            " 50%" => want.a = 0.5,
            _ => want.a = 0.05,
        }
        ensure!(got == want, "got {got:?}, theme says {want:?}");
        if p == "color" {
            ensure!(st.auto_color == base.auto, "auto colour flag {} for {base:?}", st.auto_color);
        }
        w.step();
        w.outcome(&(t, v));
        Ok(())
    });
    // 3. Themes built from any choice of base colours.
    let base = RgbaColor::rgb;
    let pal = [base(200, 30, 90), base(10, 60, 120), base(250, 160, 40), base(180, 60, 90), base(80, 190, 110), base(255, 255, 0), base(224, 224, 224), base(18, 18, 18), base(40, 40, 60), base(70, 70, 70), RgbaColor::rgba(255, 255, 255, 0.04)];
    let spreads = [0.15f32, 0.3, 0.0];
    let n = 1024 * 2 * spreads.len() as u64;
    ctx.explore("colour systems", n, |i| format!("{i:#b}"), |i, w| {
        let mut m = Mix(i);
        let mask = m.pick(1024);
        let dark = m.pick(2) == 1;
        let spread = *m.of(&spreads);
        let has = |k: usize| mask >> k & 1 == 1;
        let mut s = ColorSystem::new(pal[0].clone(), dark).with_luminosity_spread(spread);
        type F = fn(ColorSystem, RgbaColor) -> ColorSystem;
        let fs: [F; 10] = [ColorSystem::with_secondary, ColorSystem::with_warning, ColorSystem::with_error, ColorSystem::with_success, ColorSystem::with_accent, ColorSystem::with_foreground, ColorSystem::with_background, ColorSystem::with_surface, ColorSystem::with_panel, ColorSystem::with_boost];
        for k in 0..10 {
            if has(k) {
                s = fs[k](s, pal[k + 1].clone());
            }
        }
        let t = Theme::from_color_system("t", s);
        let opt = |k: usize, dft: &RgbaColor| if has(k) { pal[k + 1].clone() } else { dft.clone() };
        let primary = pal[0].clone();
        let secondary = opt(0, &primary);
        let background = opt(6, &if dark { base(0x12, 0x12, 0x12) } else { base(0xef, 0xef, 0xef) });
        let surface = opt(7, &if dark { base(0x1e, 0x1e, 0x1e) } else { base(0xf5, 0xf5, 0xf5) });
        let want = [("primary", primary.clone()), ("secondary", secondary.clone()), ("warning", opt(1, &primary)), ("error", opt(2, &secondary)), ("success", opt(3, &secondary)), ("accent", opt(4, &primary)),
            ("foreground", opt(5, &base(255 - background.r, 255 - background.g, 255 - background.b))), ("background", background.clone()), ("surface", surface.clone())];
        let g = |n: &str| t.get_color(n).ok_or(format!("${n} missing"));
        for (name, c) in &want {
            let got = g(name)?;
            ensure!(near(&got, c, 1), "${name} is {got:?}, expected {c:?}");
            let mut prev = None;
            for k in -3i32..=3 {
                let key = match k { 0 => name.to_string(), k if k < 0 => format!("{name}-darken-{}", -k), k => format!("{name}-lighten-{k}") };
                let got = g(&key)?;
                let exp = m_lighten(c, k as f64 * spread as f64 / 2.0);
                ensure!(near(&got, &exp, 2), "${key} is {got:?}, expected {exp:?}");
                let lum = got.r as u32 * 299 + got.g as u32 * 587 + got.b as u32 * 114;
                if let Some(p) = prev {
                    ensure!(lum + 2000 >= p, "${key} is darker than the shade before");
                }
                prev = Some(lum);
                w.step();
            }
        }
        if has(8) {
            ensure!(near(&g("panel")?, &pal[9], 1), "$panel");
        } else {
            // 10% primary over the surface, plus the boost overlay in dark themes.
            let lerp = |a: u8, b: u8, f: f64| a as f64 + (b as f64 - a as f64) * f;
            let boost = g("boost")?;
            let f = |s: u8, p: u8, b: u8| { let x = lerp(s, p, 0.1).floor(); if dark { (x + (b as f64 - x) * boost.a as f64) as u8 } else { x as u8 } };
            let exp = base(f(surface.r, primary.r, boost.r), f(surface.g, primary.g, boost.g), f(surface.b, primary.b, boost.b));
            ensure!(near(&g("panel")?, &exp, 1), "$panel {:?} expected {exp:?}", g("panel")?);
        }
        if !has(9) {
            let b = g("boost")?;
            let light = background.r as u32 * 299 + background.g as u32 * 587 + background.b as u32 * 114 >= 127500;
            let k = if light { 0 } else { 255 };
            ensure!((b.r, b.g, b.b) == (k, k, k) && (b.a - 0.04).abs() < 1e-6, "$boost {b:?}");
        }
        for (n, a) in [("text", 0.87), ("text-muted", 0.60), ("text-disabled", 0.38)] {
            let c = g(n)?;
            ensure!(c.auto && (c.a - a as f32).abs() < 1e-6, "${n} {c:?} is not an automatic colour of {a}");
        }
        for (n, c, k) in [("foreground-muted", g("foreground")?, 0.6f32), ("foreground-disabled", g("foreground")?, 0.38)] {
            ensure!(g(n)? == c.with_alpha(k), "${n}");
        }
        for (n, c) in [("primary-muted", &want[0].1), ("secondary-muted", &want[1].1), ("warning-muted", &want[2].1), ("error-muted", &want[3].1), ("success-muted", &want[4].1), ("accent-muted", &want[5].1)] {
            let l = |a: u8, b: u8| (a as f64 + (b as f64 - a as f64) * 0.7) as u8;
            let exp = base(l(c.r, background.r), l(c.g, background.g), l(c.b, background.b));
            ensure!(near(&g(n)?, &exp, 1), "${n} {:?} expected {exp:?}", g(n)?);
        }
        ensure!(t.is_dark == dark, "dark flag");
        w.outcome(&mask);
        Ok(())
    });
    // 4. Text-style variables.
    let sv = ["link-style", "link-style-hover"];
    ctx.explore("text style variables", (tn.len() * 2 * 3) as u64, |i| format!("{i}"), |i, w| {
        let mut m = Mix(i);
        let (t, v, p) = (*m.of(&tn), *m.of(&sv), *m.of(&["text-style", "link-style", "link-style-hover"]));
        let th = &themes[t];
        let st = compute_style(&meta("A"), &[], &parse(&format!("A {{ {p}: ${v}; }}"))?, th);
        let got = match p { "text-style" => st.text_style, "link-style" => st.link.style, _ => st.link.style_hover };
        let want = th.get_style(v).ok_or("missing")?;
        ensure!(got == want && !want.is_none(), "{got:?} vs {want:?}");
        w.step();
        w.outcome(&i);
        Ok(())
    });
}

fn near(a: &RgbaColor, b: &RgbaColor, tol: i32) -> bool {
    let f = |x: u8, y: u8| (x as i32 - y as i32).abs() <= tol;
    f(a.r, b.r) && f(a.g, b.g) && f(a.b, b.b) && (a.a - b.a).abs() < 1e-4
}

/// CIE L*a*b* lightening in double precision.
fn m_lighten(c: &RgbaColor, amount: f64) -> RgbaColor {
    let lin = |u: u8| { let u = u as f64 / 255.0; if u > 0.04045 { ((u + 0.055) / 1.055).powf(2.4) } else { u / 12.92 } };
    let (r, g, b) = (lin(c.r), lin(c.g), lin(c.b));
    let x = (r * 0.4124 + g * 0.3576 + b * 0.1805) / 0.95047;
    let y = r * 0.2126 + g * 0.7152 + b * 0.0722;
    let z = (r * 0.0193 + g * 0.1192 + b * 0.9505) / 1.08883;
    let f = |t: f64| if t > 0.008856 { t.cbrt() } else { 7.787 * t + 16.0 / 116.0 };
    let (fx, fy, fz) = (f(x), f(y), f(z));
    let l = (116.0 * fy - 16.0 + amount * 100.0).clamp(0.0, 100.0);
    let (la, lb) = (500.0 * (fx - fy), 200.0 * (fy - fz));
    let fy = (l + 16.0) / 116.0;
    let (fx, fz) = (la / 500.0 + fy, fy - lb / 200.0);
    let inv = |t: f64| if t > 0.2068930344 { t.powi(3) } else { (t - 16.0 / 116.0) / 7.787 };
    let (x, y, z) = (inv(fx) * 0.95047, inv(fy), inv(fz) * 1.08883);
    let r = x * 3.2406 + y * -1.5372 + z * -0.4986;
    let g = x * -0.9689 + y * 1.8758 + z * 0.0415;
    let b = x * 0.0557 + y * -0.2040 + z * 1.0570;
    let d = |v: f64| { let v = if v > 0.0031308 { 1.055 * v.powf(1.0 / 2.4) - 0.055 } else { 12.92 * v }; (v * 255.0).clamp(0.0, 255.0) as u8 };
    RgbaColor::rgba(d(r), d(g), d(b), c.a)
}

// ---------------------------------------------------------------------------
// Colours.

fn c30(ctx: &Ctx) {
    let p = |s: &str| RgbaColor::parse(s);
    // 1. Hex notation: every digit string of length 1..=4, and every length-6/8 string of a digit subset.
    let dig = "0123456789abcdefABCDEFgé".chars().collect::<Vec<_>>();
    let n = seq_count(dig.len() as u64, 4);
    ctx.explore("every hex string up to 4 digits", n, |i| { let s: String = seq_at(i, dig.len() as u64, 4).iter().map(|k| dig[*k]).collect(); format!("#{s}") }, |i, w| {
        let s: String = seq_at(i, dig.len() as u64, 4).iter().map(|k| dig[*k]).collect();
        hex_check(&s)?;
        w.step();
        w.outcome(&s.to_lowercase());
        Ok(())
    });
    let few = ['0', '7', '8', 'f', 'A'];
    for len in [5u32, 6, 7, 8, 9] {
        let n = 5u64.pow(len);
        if len > 6 && !ctx.thorough() && len != 8 {
            continue;
        }
        ctx.explore(&format!("hex strings of {len} digits"), n, |i| { let mut m = Mix(i); format!("#{}", (0..len).map(|_| *m.of(&few)).collect::<String>()) }, |i, w| {
            let mut m = Mix(i);
            let s: String = (0..len).map(|_| *m.of(&few)).collect();
            hex_check(&s)?;
            w.step();
            Ok(())
        });
    }
    // 2. Functions.
    let vals = [0i32, 1, 127, 128, 254, 255, 256, -1];
    let al = ["", ", 0", ",0.5", " , 1.0", ",1"];
    let names = ["rgb", "rgba", "RGB"];
    let n = (vals.len() as u64).pow(3) * al.len() as u64 * 3;
    ctx.explore("rgb functions", n, |i| format!("{i}"), |i, w| {
        let mut m = Mix(i);
        let (r, g, b, a, f) = (*m.of(&vals), *m.of(&vals), *m.of(&vals), *m.of(&al), *m.of(&names));
        let s = format!("{f}({r},{g}, {b}{a})");
        let ok = [r, g, b].iter().all(|x| (0..=255).contains(x));
        let got = p(&s);
        ensure!(got.is_ok() == ok, "{s}: {got:?}");
        if let Ok(c) = got {
            let wa: f32 = match a.trim_start_matches([' ', ',']) { "" => 1.0, x => x.parse().unwrap() };
            ensure!((c.r as i32, c.g as i32, c.b as i32) == (r, g, b) && c.a == wa && !c.auto && c.ansi.is_none() && c.theme_var.is_none(), "{s}: {c:?}");
        }
        w.step();
        w.outcome(&s);
        Ok(())
    });
    let n = 37 * 11 * 11 * 3;
    ctx.explore("hsl functions", n, |i| format!("{i}"), |i, w| {
        let mut m = Mix(i);
        let (h, s, l, a) = (m.pick(37) * 10, m.pick(11) * 10, m.pick(11) * 10, m.pick(3));
        let t = match a { 0 => format!("hsl({h},{s}%,{l}%)"), 1 => format!("hsla({h}, {s}%, {l}%, 0.5)"), _ => format!("HSL({h}, {s}% , {l}%)") };
        let c = p(&t).map_err(|e| format!("{t}: {e:?}"))?;
        // CSS Color 4 definition: f(n) = l - a*max(-1, min(k-3, 9-k, 1)).
        let (hh, ss, ll) = (h as f64, s as f64 / 100.0, l as f64 / 100.0);
        let f = |n: f64| { let k = (n + hh / 30.0) % 12.0; let q = ss * ll.min(1.0 - ll); ((ll - q * (-1.0f64).max((k - 3.0).min(9.0 - k).min(1.0))) * 255.0).round() as u8 };
        let want = RgbaColor::rgba(f(0.0), f(8.0), f(4.0), if a == 1 { 0.5 } else { 1.0 });
        ensure!(near(&c, &want, 1), "{t}: {c:?} expected {want:?}");
        let d = RgbaColor::from_hsl(h as f32, s as f32 / 100.0, l as f32 / 100.0, 1.0);
        ensure!(near(&d, &want.with_alpha(1.0), 1), "from_hsl {t}: {d:?}");
        w.step();
        w.outcome(&(c.r, c.g, c.b));
        Ok(())
    });
    // 3. Every CSS colour name.
    let names: Vec<(String, u8, u8, u8)> = include_str!("../names.txt").lines().map(|l| { let f: Vec<&str> = l.split(' ').collect(); (f[0].to_string(), f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap()) }).collect();
    ctx.explore("every CSS colour name", names.len() as u64 * 3, |i| names[(i / 3) as usize].0.clone(), |i, w| {
        let (n, r, g, b) = &names[(i / 3) as usize];
        let s = match i % 3 { 0 => n.clone(), 1 => n.to_uppercase(), _ => format!("  {n}\n") };
        let c = p(&s).map_err(|e| format!("{s:?}: {e:?}"))?;
        ensure!(c == RgbaColor::rgb(*r, *g, *b), "{s:?}: {c:?}");
        ensure!(p(&format!("{n}x")).is_err() && p(&format!("x{n}")).is_err(), "misspelt {n} accepted");
        w.step();
        w.outcome(n);
        Ok(())
    });
    // 4. No string panics.
    let toks = ["rgb", "hsl", "(", ")", ",", "1", "300", "%", "#", "f", "é", " ", "-", ".", "auto", "red", "a"];
    let k = toks.len() as u64;
    let l = ctx.pick(6, 7);
    let n = seq_count(k, l);
    let dec = |i: u64| -> String { seq_at(i, k, l).iter().map(|x| toks[*x]).collect() };
    ctx.explore("every short colour string", n, |i| format!("{:?}", dec(i)), |i, w| {
        let s = dec(i);
        let r = catch(|| RgbaColor::parse(&s))?;
        w.step();
        w.outcome(&r.is_ok());
        Ok(())
    });
    // 5. Blending over a grid of channel values, alphas and factors.
    let ch = [0u8, 1, 63, 127, 128, 200, 254, 255];
    let fa = [0.0f32, 0.04, 0.25, 0.5, 0.66, 0.95, 1.0];
    let n = (ch.len() as u64).pow(2) * (fa.len() as u64).pow(3);
    ctx.explore("blending", n, |i| format!("{i}"), |i, w| {
        let mut m = Mix(i);
        let (x, y, xa, ya, f) = (*m.of(&ch), *m.of(&ch), *m.of(&fa), *m.of(&fa), *m.of(&fa));
        let a = RgbaColor::rgba(x, 255 - x, y, xa);
        let b = RgbaColor::rgba(y, x, 255 - y, ya);
        let lerp = |p: u8, q: u8, t: f32| p as f64 + (q as f64 - p as f64) * t as f64;
        let close = |got: u8, want: f64| (got as f64 - want).abs() <= 1.0;
        let chk = |what: &str, got: &RgbaColor, p: &RgbaColor, q: &RgbaColor, t: f32, alpha: f32| -> Result<(), String> {
            ensure!(close(got.r, lerp(p.r, q.r, t)) && close(got.g, lerp(p.g, q.g, t)) && close(got.b, lerp(p.b, q.b, t)), "{what}: {a:?} {b:?} factor {t}: {got:?}");
            ensure!((got.a - alpha).abs() < 1e-5, "{what}: alpha {} expected {alpha}", got.a);
            Ok(())
        };
        chk("tint", &a.tint(&b), &a, &b, ya, xa)?;
        chk("blend_over", &a.blend_over(&b), &b, &a, xa, if xa >= 1.0 { 1.0 } else { ya })?;
        chk("blend", &a.blend(&b, f, None), &a, &b, f, xa + (ya - xa) * f)?;
        chk("blend_toward", &a.blend_toward(&b, f as f64), &b, &a, f, if f <= 0.0 { ya } else { xa })?;
        if f <= 0.0 {
            ensure!(a.blend(&b, f, Some(0.3)) == a, "blend by 0 is not the identity");
        } else if f >= 1.0 {
            ensure!(a.blend(&b, f, Some(0.3)) == b, "blend by 1 is not the destination");
        } else {
            ensure!(a.blend(&b, f, Some(0.3)).a == 0.3, "explicit alpha");
        }
        ensure!((a.with_opacity(f as f64).a - xa * f).abs() < 1e-6, "with_opacity");
        let inv = a.inverse();
        ensure!(inv.inverse() == a && inv.r == 255 - a.r && inv.g == 255 - a.g && inv.b == 255 - a.b, "inverse");
        let cg = a.get_contrasting_color(f);
        let bright = (a.r as f64 * 0.299 + a.g as f64 * 0.587 + a.b as f64 * 0.114) / 255.0;
        if (bright - 0.5).abs() > 1e-3 {
            let k = if bright < 0.5 { 255 } else { 0 };
            let e = |p: u8| k as f64 * f as f64 + p as f64 * (1.0 - f as f64);
            ensure!(close(cg.r, e(a.r)) && close(cg.g, e(a.g)) && close(cg.b, e(a.b)) && cg.a == 1.0, "contrasting colour of {a:?} by {f}: {cg:?}");
            let ct = a.contrast_text(f);
            ensure!((ct.r, ct.g, ct.b, ct.a) == (k, k, k, f), "contrast text of {a:?}: {ct:?}");
        }
        w.step();
        w.outcome(&(x, y));
        Ok(())
    });
    // 6. Lightening over a colour grid.
    let g = ctx.pick(9u64, 18);
    let am = [-1.0f32, -0.225, -0.15, -0.075, 0.0, 0.025, 0.06, 0.075, 0.15, 0.3, 1.0];
    ctx.explore("lighten and darken", g * g * g * am.len() as u64, |i| format!("{i}"), |i, w| {
        let mut m = Mix(i);
        let mut c = || (m.pick(g) as u64 * 255 / (g - 1)) as u8;
        let c0 = RgbaColor::rgba(c(), c(), c(), 0.7);
        let a = *m.of(&am);
        let want = m_lighten(&c0, a as f64);
        let l = c0.lighten(a);
        ensure!(near(&l, &want, 2), "lighten {c0:?} by {a}: {l:?} expected {want:?}");
        ensure!(c0.darken(-a) == l, "darken by the opposite differs");
        w.step();
        w.outcome(&(l.r, l.g, l.b));
        Ok(())
    });
}

fn hex_check(s: &str) -> Result<(), String> {
    let t = format!("#{s}");
    let got = catch(|| RgbaColor::parse(&t))?;
    let ds: Option<Vec<u32>> = s.chars().map(|c| if c.is_ascii() { c.to_digit(16) } else { None }).collect();
    let want = ds.and_then(|d| match d.len() {
        3 | 4 => {
            let x: Vec<u32> = d.iter().map(|v| v * 17).collect();
            Some((x[0], x[1], x[2], x.get(3).copied().unwrap_or(255)))
        }
        6 | 8 => {
            let x: Vec<u32> = d.chunks(2).map(|v| v[0] * 16 + v[1]).collect();
            Some((x[0], x[1], x[2], x.get(3).copied().unwrap_or(255)))
        }
        _ => None,
    });
    match (got, want) {
        (Ok(c), Some((r, g, b, a))) => {
            ensure!((c.r as u32, c.g as u32, c.b as u32) == (r, g, b) && (c.a - a as f32 / 255.0).abs() < 1e-6, "{t}: {c:?}");
        }
        (Err(_), None) => {}
        (g, w) => return Err(format!("{t}: parsed {g:?}, by definition {w:?}")),
    }
    Ok(())
}
