//! C05 markup, C28 fuzzy search, C29 exact fractions, C45 command providers.
use mc::*;
use textual::fraction::Fraction;
use textual::fuzzy::{FuzzySearch, Matcher};

fn main() {
    main_with(&[("C05", c05), ("C28", c28), ("C29", c29), ("C45", c45)]);
}

// ---------------------------------------------------------------- C28
fn fold(c: char, cs: bool) -> String {
    if cs { c.to_string() } else { c.to_lowercase().collect() }
}

fn c28(ctx: &Ctx) {
    let cand_alpha: Vec<char> = vec!['a', 'b', 'A', ' ', '[', '\\', 'İ', 'é'];
    let query_alpha: Vec<char> = vec!['a', 'b', 'B', ' ', '[', 'É'];
    let (cl, ql) = ctx.pick((4, 3), (6, 4));
    let nc = seq_count(cand_alpha.len() as u64, cl);
    let nq = seq_count(query_alpha.len() as u64, ql);
    ctx.assume("characters outside the two small alphabets behave like one inside them");
    let dec = |i: u64| {
        let c: String = seq_at(i, cand_alpha.len() as u64, cl).iter().map(|&k| cand_alpha[k]).collect();
        c
    };
    let queries: Vec<String> = (0..nq)
        .map(|i| seq_at(i, query_alpha.len() as u64, ql).iter().map(|&k| query_alpha[k]).collect())
        .collect();
    ctx.note("queries_per_candidate", queries.len().into());
    ctx.explore("candidate x every query x case", nc, |i| format!("{:?}", dec(i)), |i, w| {
        let cand = dec(i);
        let cc: Vec<char> = cand.chars().collect();
        for q in &queries {
            for cs in [false, true] {
                w.step();
                let qc: Vec<char> = q.chars().collect();
                // Reference: greedy subsequence test.
                let mut k = 0;
                for &c in &cc {
                    if k < qc.len() && fold(c, cs) == fold(qc[k], cs) {
                        k += 1;
                    }
                }
                let expect = !qc.is_empty() && k == qc.len();
                let (score, off) = catch(|| FuzzySearch::new(cs).match_candidate(q, &cand))
                    .map_err(|e| format!("query {q:?} cs={cs}: {e}"))?;
                w.outcome(&(score.to_bits(), &off));
                ensure!((score > 0.0) == expect,
                    "query {q:?} case_sensitive={cs}: score {score}, subsequence={expect}");
                ensure!(score.is_finite(), "query {q:?}: score {score}");
                if expect {
                    ensure!(off.len() == qc.len(), "query {q:?} cs={cs}: offsets {off:?}");
                    ensure!(off.windows(2).all(|p| p[0] < p[1]), "query {q:?}: offsets not increasing {off:?}");
                    for (o, c) in off.iter().zip(&qc) {
                        ensure!(*o < cc.len() && fold(cc[*o], cs) == fold(*c, cs),
                            "query {q:?} cs={cs}: offset {o} of {off:?} is not {c:?}");
                    }
                    if cand.contains(q.as_str()) {
                        ensure!(off.windows(2).all(|p| p[1] == p[0] + 1),
                            "query {q:?} occurs contiguously but matched at {off:?}");
                    }
                    let same = cc.len() == qc.len();
                    if !same {
                        let best = FuzzySearch::new(cs).match_candidate(q, q).0;
                        ensure!(best > score, "query {q:?}: scores {score} against {cand:?}, {best} against itself");
                    }
                } else {
                    ensure!(off.is_empty(), "no match but offsets {off:?} for {q:?}");
                }
                let m = Matcher::new(q.clone(), Some("bold".into()), cs);
                ensure!(m.match_score(&cand) == score, "match_score differs for {q:?}");
                let h = m.highlight(&cand);
                let p = rich::ParsedMarkup::parse(&h).map_err(|e| format!("highlight of {q:?} is {h:?}: {e}"))?;
                ensure!(p.text() == cand, "highlight of {q:?} is {h:?}, reads as {:?}", p.text());
                let mut ci = 0;
                for (b, c) in cand.char_indices() {
                    let want = off.contains(&ci) && !c.is_whitespace();
                    let got = p.style_at(b).text.bold;
                    ensure!(want == got, "highlight {h:?} of {q:?}: char {ci} bold={got}, matched={want}");
                    ci += 1;
                }
            }
        }
        w.state(&cand);
        Ok(())
    });
}

// ---------------------------------------------------------------- C45
/// Name, action, help, and whether it is shown before anything is typed.
const COMMANDS: &[(&str, &str, Option<&str>, bool)] = &[
    ("Quit", "quit", Some("Leave"), true),
    ("quit app", "app.quit", None, false),
    ("a[b]c", "x('[')", Some("[bold]"), true),
    ("Back\\", "back", Some(""), true),
    ("", "nothing", None, true),
    ("Éa İx", "e", Some("é"), true),
    ("Quit", "other", None, true),
    ("zebra [/] crossing", "z", None, false),
];
const QUERIES: &[&str] = &["", "q", "QA", "quit", "[", "]", "\\", "é", "t p", "zz", "rac", "i", "quit app", "]c"];

fn c45(ctx: &Ctx) {
    use textual::command::{Provider, SimpleCommand, SimpleProvider, SystemCommand, SystemCommandsProvider};
    type Row = (String, String, Option<String>);
    fn run<T>(f: impl std::future::Future<Output = T>) -> T {
        futures::executor::block_on(f)
    }
    fn plain(markup: &str) -> Result<rich::ParsedMarkup, String> {
        rich::ParsedMarkup::parse(markup).map_err(|e| format!("displayed as {markup:?}, which does not parse: {e}"))
    }
    let l = ctx.pick(4, 6);
    let n = seq_count(COMMANDS.len() as u64, l);
    let dec = |i: u64| seq_at(i, COMMANDS.len() as u64, l);
    ctx.assume("commands are drawn from eight that differ in name, markup in the name, help and discoverability");
    ctx.note("queries_per_list", QUERIES.len().into());
    ctx.explore("every list of commands", n, |i| format!("{:?}", dec(i).iter().map(|&k| COMMANDS[k].0).collect::<Vec<_>>()), |i, w| {
        let ix = dec(i);
        let list: Vec<_> = ix.iter().map(|&k| COMMANDS[k]).collect();
        let system = |&(name, action, help, shown): &(&str, &str, Option<&str>, bool)| {
            if shown && (name.len() % 2 == 0 || help.is_none()) {
                return SystemCommand::from((name.to_string(), action.to_string(), help.map(String::from)));
            }
            let c = SystemCommand::new(name, action);
            let c = match help { Some(h) => c.with_help(h), None => c };
            if shown { c } else { c.discoverable(false) }
        };
        let simple = |&(name, action, help, shown): &(&str, &str, Option<&str>, bool)| {
            if shown && (name.len() % 2 == 0 || help.is_none()) {
                return SimpleCommand::from((name.to_string(), action.to_string(), help.map(String::from)));
            }
            let c = SimpleCommand::new(name, action);
            let c = match help { Some(h) => c.with_help(h), None => c };
            if shown { c } else { c.discoverable(false) }
        };
        for kind in ["system", "simple", "simple from system"] {
            let mut p: Box<dyn Provider> = match kind {
                "system" => Box::new(SystemCommandsProvider::new(list.iter().map(system).collect())),
                "simple" => Box::new(SimpleProvider::new(list.iter().map(simple).collect())),
                _ => Box::new(SimpleProvider::new(list.iter().map(|c| SimpleCommand::from(system(c))).collect())),
            };
            for style in [None, Some("bold italic")] {
                if let Some(s) = style { p.set_match_style(s.to_string()); }
                run(p.startup());
                w.step();
                // Before anything is typed.
                let hits = run(p.discover());
                let mut want: Vec<Row> = list.iter().filter(|c| c.3).map(|c| (c.0.into(), c.1.into(), c.2.map(String::from))).collect();
                if kind == "system" { want.sort_by(|a, b| a.0.cmp(&b.0)); }
                let got: Vec<Row> = hits.iter().map(|h| (h.text.clone(), h.action.clone(), h.help.clone())).collect();
                ensure!(got.iter().map(|r| &r.0).eq(want.iter().map(|r| &r.0)), "{kind}: discovers {got:?}, expected {want:?}");
                let sorted = |mut v: Vec<Row>| { v.sort(); v };
                ensure!(sorted(got.clone()) == sorted(want.clone()), "{kind}: discovers {got:?}, expected {want:?}");
                for h in &hits {
                    let m = plain(&h.display)?;
                    ensure!(m.text() == h.text && m.is_plain(), "{kind}: {:?} is displayed as {:?}", h.text, h.display);
                }
                for q in QUERIES {
                    w.step();
                    let qc: Vec<char> = q.chars().collect();
                    let hits = run(p.search(q));
                    let want: Vec<Row> = list.iter().filter(|c| {
                        let mut k = 0;
                        for ch in c.0.chars() { if k < qc.len() && fold(ch, false) == fold(qc[k], false) { k += 1; } }
                        k == qc.len() && k > 0
                    }).map(|c| (c.0.into(), c.1.into(), c.2.map(String::from))).collect();
                    let got: Vec<Row> = hits.iter().map(|h| (h.text.clone(), h.action.clone(), h.help.clone())).collect();
                    w.outcome(&got);
                    ensure!(sorted(got.clone()) == sorted(want.clone()), "{kind}: {q:?} finds {got:?}, expected {want:?}");
                    for h in &hits {
                        ensure!(h.score.is_finite() && h.score > 0.0, "{kind}: {q:?} finds {:?} with score {}", h.text, h.score);
                        let m = plain(&h.match_display)?;
                        ensure!(m.text() == h.text, "{kind}: {:?} found by {q:?} is displayed as {:?}", h.text, h.match_display);
                        let mut lit = 0;
                        for (b, c) in m.text().char_indices() {
                            let st = m.style_at(b);
                            if style.is_some() && !st.is_empty() {
                                ensure!(st.text.bold && st.text.italic, "{kind}: {:?} found by {q:?} highlights {c:?} with {st:?}", h.text);
                            }
                            lit += usize::from(!st.is_empty());
                        }
                        if style.is_some() {
                            let want = qc.iter().filter(|c| !c.is_whitespace()).count();
                            ensure!(lit == want, "{kind}: {:?} found by {q:?} highlights {lit} characters of {want} ({:?})", h.text, h.match_display);
                        }
                    }
                    // An equal text scores the same whatever else is in the list.
                    for (a, b) in hits.iter().flat_map(|a| hits.iter().map(move |b| (a, b))) {
                        ensure!(a.text != b.text || a.score == b.score, "{kind}: {q:?} scores {:?} {} and {}", a.text, a.score, b.score);
                    }
                }
                run(p.shutdown());
            }
        }
        w.state(&ix);
        Ok(())
    });
}

// ---------------------------------------------------------------- C29
fn c29(ctx: &Ctx) {
    // Reference: exact rationals as (num, den>0) in i128.
    type R = (i128, i128);
    fn red(n: i128, d: i128) -> R {
        if d == 0 { return (0, 1); }
        let (mut a, mut b) = (n.abs(), d.abs());
        while b != 0 { let t = a % b; a = b; b = t; }
        let g = a.max(1);
        let s = if d < 0 { -1 } else { 1 };
        (s * n / g, s * d / g)
    }
    // The value of a Fraction, observed only through floor/fract/mul_ratio.
    fn same(f: Fraction, r: R) -> Result<(), String> {
        ensure!(f.floor() as i128 == r.0.div_euclid(r.1), "floor {} of exact {}/{}", f.floor(), r.0, r.1);
        ensure!(f == Fraction::new(r.0 as i64, r.1 as i64), "{f:?} != {}/{}", r.0, r.1);
        let fr = (r.0.rem_euclid(r.1), r.1);
        ensure!(f.fract() == Fraction::new(fr.0 as i64, fr.1 as i64), "fract {:?} of {}/{}", f.fract(), r.0, r.1);
        ensure!(f.fract().floor() == 0, "fract {:?} not in [0,1)", f.fract());
        ensure!(f - f.fract() == Fraction::from(f.floor()), "floor+fract != value for {f:?}");
        // scaling by the denominator recovers the numerator
        ensure!(f.mul_ratio(r.1 as i64, 1).floor() as i128 == r.0, "value of {f:?} is not {}/{}", r.0, r.1);
        Ok(())
    }
    let lim: i64 = ctx.pick(9, 14);
    let span = (2 * lim + 1) as u64;
    let n = span.pow(4);
    let dec = move |i: u64| {
        let mut m = Mix(i);
        let mut p = || m.pick(span) as i64 - lim;
        (p(), p(), p(), p())
    };
    ctx.explore("binary operations on all small fractions", n, move |i| format!("{:?}", dec(i)), move |i, w| {
        let (a, b, c, d) = dec(i);
        w.steps(5);
        let (x, y) = (Fraction::new(a, b), Fraction::new(c, d));
        let (rx, ry) = (red(a as i128, b as i128), red(c as i128, d as i128));
        w.state(&(rx, ry));
        same(x, rx)?;
        same(x + y, red(rx.0 * ry.1 + ry.0 * rx.1, rx.1 * ry.1))?;
        same(x - y, red(rx.0 * ry.1 - ry.0 * rx.1, rx.1 * ry.1))?;
        same(x * y, red(rx.0 * ry.0, rx.1 * ry.1))?;
        same(x.mul_ratio(c, d), if d == 0 { (0, 1) } else { red(rx.0 * c as i128, rx.1 * d as i128) })?;
        w.outcome(&(x.floor(), (x + y).floor(), (x * y).floor()));
        ensure!((x == y) == (rx == ry), "equality of {a}/{b} and {c}/{d}");
        Ok(())
    });
    // Carrying apportionment: portions with a carried remainder always add up.
    let maxt: u64 = ctx.pick(120, 400);
    let maxw: u64 = ctx.pick(5, 6);
    let k = ctx.pick(4u32, 5);
    let n = (maxt + 1) * maxw.pow(k);
    let dec = move |i: u64| {
        let mut m = Mix(i);
        let ws: Vec<i64> = (0..k).map(|_| m.pick(maxw) as i64 + 1).collect();
        (m.0 as i64, ws)
    };
    ctx.explore("apportionment of every total over weights", n, move |i| format!("{:?}", dec(i)), move |i, w| {
        let (total, ws) = dec(i);
        let sum: i64 = ws.iter().sum();
        let unit = Fraction::new(total, sum);
        let mut carry = Fraction::ZERO;
        let mut got = 0;
        let mut acc = 0;
        for x in &ws {
            let raw = unit.mul_ratio(*x, 1) + carry;
            let f = raw.floor();
            carry = raw.fract();
            got += f;
            acc += x;
            w.step();
            ensure!(got == (total * acc).div_euclid(sum), "prefix sum {got} of {total} over {ws:?}");
        }
        w.state(&(got, &ws));
        ensure!(got == total && carry == Fraction::ZERO, "{got} of {total} given out over {ws:?}");
        Ok(())
    });
    // Long accumulation: the precision never degrades.
    ctx.explore("repeated addition n x 1/d", ctx.pick(300, 2000), |d| format!("d={}", d + 1), |i, w| {
        let d = i as i64 + 1;
        let mut s = Fraction::ZERO;
        for k in 1..=2 * d {
            s = s + Fraction::new(1, d);
            w.step();
            ensure!(s == Fraction::new(k, d) && s.floor() == k / d, "after {k} additions of 1/{d}: {s:?}");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C05
/// Reference interpreter for well-nested markup: a stack machine over tokens.
#[derive(Clone, Copy)]
enum T { Txt(&'static str), Open(&'static str), Close, CloseName(&'static str), Esc(char) }

fn c05(ctx: &Ctx) {
    use rich::{Color, ParsedMarkup, Style};
    ctx.assume("text and tag alphabets are small; tag bodies outside it are covered only for totality");
    // (1) Totality and text preservation over raw strings.
    let alpha: Vec<&str> = vec!["a", "[", "]", "/", "\\", "b", "é", " ", "#", "=", "@"];
    let l = ctx.pick(6, 7);
    let n = seq_count(alpha.len() as u64, l);
    let dec = |i: u64| -> String { seq_at(i, alpha.len() as u64, l).iter().map(|&k| alpha[k]).collect() };
    ctx.explore("every short string", n, |i| format!("{:?}", dec(i)), |i, w| {
        let s = dec(i);
        w.step();
        wellformed(&s, w)
    });
    // (2) Tag bodies: every short body inside one tag.
    let body: Vec<&str> = vec!["#", "a", "1", "é", "€", "𐀀", "(", ")", ",", "rgb", "on", " ", "red", "bold", "link=", "@k", "=", "'"];
    let l = ctx.pick(4, 5);
    let n = seq_count(body.len() as u64, l);
    let decb = |i: u64| -> String { seq_at(i, body.len() as u64, l).iter().map(|&k| body[k]).collect() };
    ctx.explore("every short tag body", n, |i| format!("{:?}", decb(i)), |i, w| {
        let b = decb(i);
        w.step();
        let s = format!("x[{b}]yz[/]w");
        wellformed(&s, w)?;
        wellformed(&format!("[{b}]"), w)?;
        let _ = catch(|| (Style::parse(&b).ok(), Color::parse(&b).map(|c| c.to_rgb()).ok()))?;
        Ok(())
    });
    // (2b) hex and rgb() colours, exact values; longer bodies.
    let hexa: Vec<&str> = vec!["0", "9", "a", "F", "g", "é", "€"];
    let n = seq_count(hexa.len() as u64, ctx.pick(6, 7));
    let dech = |i: u64| -> String { seq_at(i, hexa.len() as u64, 7).iter().map(|&k| hexa[k]).collect() };
    ctx.explore("every hex colour body", n, |i| format!("{:?}", dech(i)), |i, w| {
        let b = dech(i);
        w.step();
        let got = catch(|| Color::parse(&format!("#{b}")).ok().map(|c| c.to_rgb()))?;
        let d: Option<Vec<u32>> = b.chars().map(|c| c.to_digit(16)).collect();
        let want = match d {
            Some(d) if d.len() == 3 => Some((d[0] * 17, d[1] * 17, d[2] * 17)),
            Some(d) if d.len() == 6 => Some((d[0] * 16 + d[1], d[2] * 16 + d[3], d[4] * 16 + d[5])),
            _ => None,
        };
        let got = got.map(|(r, g, b)| (r as u32, g as u32, b as u32));
        w.outcome(&got);
        ensure!(got == want, "#{b} reads as {got:?}, expected {want:?}");
        wellformed(&format!("[#{b}]x[/]"), w)
    });
    // (3) Semantics of nesting.
    let toks: Vec<T> = vec![
        T::Txt("x"), T::Txt("é "), T::Open("red"), T::Open("blue on red"), T::Open("bold"),
        T::Open("@click=app.quit"), T::Open("@click=b"), T::Close, T::CloseName("red"), T::CloseName("bold"), T::Esc('['), T::Esc('\\'),
    ];
    let l = ctx.pick(6, 7);
    let n = seq_count(toks.len() as u64, l);
    let text_of = |ix: &[usize]| -> String {
        ix.iter().map(|&k| match toks[k] {
            T::Txt(s) => s.to_string(),
            T::Open(s) => format!("[{s}]"),
            T::Close => "[/]".into(),
            T::CloseName(s) => format!("[/{s}]"),
            T::Esc(c) => format!("\\{c}"),
        }).collect()
    };
    ctx.explore("every tag/text sequence", n, |i| format!("{:?}", text_of(&seq_at(i, toks.len() as u64, l))), |i, w| {
        let ix = seq_at(i, toks.len() as u64, l);
        let src = text_of(&ix);
        // Reference.
        let mut stack: Vec<&str> = vec![];
        let mut want: Vec<(char, Vec<&str>)> = vec![];
        for &k in &ix {
            w.step();
            match toks[k] {
                T::Txt(s) => want.extend(s.chars().map(|c| (c, stack.clone()))),
                T::Esc(c) => want.push((c, stack.clone())),
                T::Open(s) => stack.push(s),
                T::Close => { stack.pop(); }
                T::CloseName(s) => {
                    // Named closes are specified only when they close an open tag of that name:
                    // everything opened since is closed with it.
                    match stack.iter().rposition(|t| *t == s) {
                        Some(p) if !stack[p + 1..].iter().any(|t| t.split(' ').any(|x| x == s)) => stack.truncate(p),
                        _ => return Ok(()),
                    }
                }
            }
        }
        let p = ParsedMarkup::parse(&src).map_err(|e| format!("rejected: {e}"))?;
        let text: String = want.iter().map(|x| x.0).collect();
        ensure!(p.text() == text, "text {:?}, expected {text:?}", p.text());
        let style_of = |tags: &[&str]| -> (Style, Option<&str>) {
            let mut s = Style::default();
            let mut m = None;
            for t in tags {
                match *t {
                    "red" => s.fg = Some(Color::Named("red".into())),
                    "blue on red" => { s.fg = Some(Color::Named("blue".into())); s.bg = Some(Color::Named("red".into())) }
                    "bold" => s.text.bold = true,
                    "@click=app.quit" => m = Some("app.quit"),
                    "@click=b" => m = Some("b"),
                    _ => unreachable!(),
                }
            }
            (s, m)
        };
        // Per-byte observation through the segment iterator.
        let segs: Vec<_> = p.segments().collect();
        let joined: String = segs.iter().map(|s| s.0).collect();
        ensure!(joined == text, "segments join to {joined:?}, expected {text:?}");
        let mut flat = vec![];
        for (t, s, m) in &segs {
            for c in t.chars() { flat.push((c, s.clone(), m.get("@click").cloned())); }
        }
        let mut b = 0;
        for (k, (c, tags)) in want.iter().enumerate() {
            let (s, m) = style_of(tags);
            ensure!(flat[k].1 == s, "char {k} {c:?} styled {:?}, expected {s:?}", flat[k].1);
            ensure!(flat[k].2.as_deref() == m, "char {k} {c:?} has click {:?}, expected {m:?}", flat[k].2);
            ensure!(p.style_at(b) == s, "style_at({b}) {:?}, expected {s:?}", p.style_at(b));
            b += c.len_utf8();
        }
        w.state(&format!("{want:?}"));
        Ok(())
    });

    // (4) Colour names: every CSS name (and the terminal's bright ones), as foreground and background.
    let mut names: Vec<(String, (u8, u8, u8))> = include_str!("../names.txt").lines().map(|l| { let f: Vec<&str> = l.split(' ').collect(); (f[0].to_string(), (f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap())) }).collect();
    for (n, c) in [("black", (128, 128, 128)), ("white", (255, 255, 255)), ("red", (255, 85, 85)), ("green", (85, 255, 85)), ("blue", (85, 85, 255)), ("yellow", (255, 255, 85)), ("cyan", (85, 255, 255)), ("magenta", (255, 85, 255))] {
        names.push((format!("bright_{n}"), c));
    }
    let known: std::collections::BTreeSet<String> = names.iter().map(|n| n.0.clone()).collect();
    let (nm, kn) = (&names, &known);
    ctx.explore("every colour name", names.len() as u64, |i| nm[i as usize].0.clone(), |i, w| {
        let (name, rgb) = &nm[i as usize];
        for n in [name.clone(), name.to_uppercase()] {
            for (tag, bg) in [(n.clone(), false), (format!("on {n}"), true), (format!("bold {n}"), false), (format!("{n} on {n}"), true)] {
                w.step();
                let p = ParsedMarkup::parse(&format!("[{tag}]x[/]")).map_err(|e| format!("[{tag}] rejected: {e}"))?;
                let st = p.style_at(0);
                let got = if bg { st.bg } else { st.fg }.map(|c| c.to_rgb());
                w.outcome(&got);
                ensure!(got == Some(*rgb), "[{tag}] colours the text {got:?}, expected {rgb:?}");
            }
        }
        for n in [format!("{name}x"), format!("x{name}"), name[1..].to_string(), name[..name.len() - 1].to_string()] {
            w.step();
            let got = Color::parse(&n).map(|c| c.to_rgb()).ok();
            ensure!(got.is_some() == kn.contains(&n), "{n:?} reads as the colour {got:?}");
        }
        Ok(())
    });
    // (5) Style phrases: every sequence of words.
    const WORDS: &[&str] = &["bold", "b", "DIM", "d", "italic", "I", "underline", "u", "strike", "s", "strikethrough", "reverse", "r", "blink", "red", "#0F8", "rgb(1,2,255)", "Blue", "on", "rgb(1,2,256)", "nope"];
    fn meaning(ws: &[&str]) -> Option<Style> {
        let colour = |w: &str| match w { "red" => Some(Color::Named("red".into())), "Blue" => Some(Color::Named("blue".into())), "#0F8" => Some(Color::Rgb(0, 255, 136)), "rgb(1,2,255)" => Some(Color::Rgb(1, 2, 255)), _ => None };
        let mut st = Style::default();
        let mut it = ws.iter();
        while let Some(w) = it.next() {
            match *w {
                "bold" | "b" => st.text.bold = true,
                "DIM" | "d" => st.text.dim = true,
                "italic" | "I" => st.text.italic = true,
                "underline" | "u" => st.text.underline = true,
                "strike" | "s" | "strikethrough" => st.text.strike = true,
                "reverse" | "r" => st.text.reverse = true,
                "blink" => st.text.blink = true,
                "on" => st.bg = Some(colour(it.next()?)?),
                w => st.fg = Some(colour(w)?),
            }
        }
        (!ws.is_empty()).then_some(st)
    }
    let l = ctx.pick(4, 5);
    let n = seq_count(WORDS.len() as u64, l);
    let decw = |i: u64| -> Vec<&'static str> { seq_at(i, WORDS.len() as u64, l).iter().map(|&k| WORDS[k]).collect() };
    ctx.explore("every style phrase", n, |i| format!("{:?}", decw(i).join(" ")), |i, w| {
        let ws = decw(i);
        let phrase = ws.join(" ");
        let want = meaning(&ws);
        w.steps(ws.len() as u64);
        let got = catch(|| Style::parse(&phrase))?.ok();
        w.outcome(&format!("{got:?}"));
        ensure!(got == want, "the style {phrase:?} reads as {got:?}, expected {want:?}");
        let m = ParsedMarkup::parse(&format!("a[{phrase}]x[/]b"));
        match want {
            None => ensure!(m.is_err() || m.as_ref().is_ok_and(|m| m.is_plain()), "[{phrase}] is accepted"),
            Some(st) => {
                let m = m.map_err(|e| format!("[{phrase}] rejected: {e}"))?;
                ensure!(m.text() == "axb" && m.style_at(1) == st && m.style_at(0).is_empty() && m.style_at(2).is_empty(), "[{phrase}] marks up {:?}", m.spans());
                ensure!(!st.is_empty() && !st.text.is_empty() == ws.iter().enumerate().any(|(k, w)| (k == 0 || ws[k - 1] != "on") && *w != "on" && meaning(&[w]).is_some_and(|s| s.fg.is_none())), "{phrase:?} empty? {:?}", st.text);
                // A style on top of a style is the two phrases one after the other.
                for k in 1..ws.len() {
                    if let (Some(a), Some(b)) = (meaning(&ws[..k]), meaning(&ws[k..])) {
                        w.step();
                        ensure!(a.apply(&b) == st, "{:?} with {:?} on top is {:?}, expected {st:?}", ws[..k].join(" "), ws[k..].join(" "), a.apply(&b));
                        let m = ParsedMarkup::parse(&format!("[{}][{}]x[/][/]", ws[..k].join(" "), ws[k..].join(" "))).map_err(|e| format!("{e}"))?;
                        ensure!(m.style_at(0) == st, "nested {:?} and {:?} style the text {:?}, expected {st:?}", ws[..k].join(" "), ws[k..].join(" "), m.style_at(0));
                    }
                }
            }
        }
        Ok(())
    });
    // (6) Links and actions: what is between the equals sign and the bracket is the target.
    let parts: Vec<&str> = vec!["a", "=", "/", "@", " ", "é", "?q", "(\"b\")", "#", "'c'"];
    let l = ctx.pick(4, 5);
    let n = seq_count(parts.len() as u64, l);
    let decl = |i: u64| -> String { seq_at(i, parts.len() as u64, l).iter().map(|&k| parts[k]).collect() };
    ctx.explore("every link target", n, |i| format!("{:?}", decl(i)), |i, w| {
        let t = decl(i);
        let v = t.trim();
        if v.is_empty() { return Ok(()) }
        for (key, tag) in [("@click", format!("@click={t}")), ("@k", format!("@k = {t}")), ("@link", format!("link={t}")), ("@link", format!("link='{t}'")), ("@link", format!("link=\"{t}\""))] {
            if key == "@link" && (v.starts_with(['\'', '"']) || v.ends_with(['\'', '"']) || (v != t && !tag.ends_with(v))) { continue }
            w.step();
            let p = ParsedMarkup::parse(&format!("a[{tag}]x[/]b")).map_err(|e| format!("[{tag}] rejected: {e}"))?;
            let segs: Vec<_> = p.segments().collect();
            let of = |c: &str| segs.iter().find(|s| s.0 == c).map(|s| s.2.clone()).unwrap_or_default();
            let m = of("x");
            w.outcome(&m.get(key));
            ensure!(m.get(key).map(|x| x.as_str()) == Some(v) && m.len() == 1, "[{tag}] gives {m:?}, expected {key} = {v:?}");
            ensure!(of("a").is_empty() && of("b").is_empty(), "[{tag}] leaks out of its tag");
            ensure!(p.spans_at(1).iter().any(|s| s.get_meta(key) == Some(v)) && p.spans_at(0).is_empty() && p.spans_at(2).is_empty(), "[{tag}]: spans at 0, 1, 2: {:?} {:?} {:?}", p.spans_at(0), p.spans_at(1), p.spans_at(2));
        }
        Ok(())
    });
    // (7) Spans as ranges.
    ctx.explore("every pair of spans", 7 * 7 * 7 * 7, |i| { let mut m = Mix(i); format!("{:?}", [m.pick(7), m.pick(7), m.pick(7), m.pick(7)]) }, |i, w| {
        let mut m = Mix(i);
        let (a, b, c, d) = (m.pick(7), m.pick(7), m.pick(7), m.pick(7));
        w.step();
        let (x, y) = (rich::Span::new(a, b, Style::default()), rich::Span::new(c, d, Style::default()));
        let set = |a: usize, b: usize| (a..b).collect::<Vec<usize>>();
        ensure!((0..8).all(|k| x.contains(k) == set(a, b).contains(&k)) && x.len() == set(a, b).len() && x.is_zero_length() == set(a, b).is_empty(), "the span {a}..{b} has {} bytes", x.len());
        if a < b && c < d {
            let both = set(a, b).iter().any(|k| set(c, d).contains(k));
            ensure!(x.overlaps(&y) == both && y.overlaps(&x) == both, "{a}..{b} and {c}..{d}: overlap {}, expected {both}", x.overlaps(&y));
        }
        w.outcome(&x.overlaps(&y));
        Ok(())
    });

    fn wellformed(s: &str, w: &mut W) -> Result<(), String> {
        let r = catch(|| ParsedMarkup::parse(s))?;
        match r {
            Err(_) => {
                w.outcome("error");
                Ok(())
            }
            Ok(p) => {
                let t = p.text().to_string();
                w.outcome(&(&t, p.spans().len()));
                for sp in p.spans() {
                    ensure!(sp.start <= sp.end && sp.end <= t.len() && t.is_char_boundary(sp.start) && t.is_char_boundary(sp.end),
                        "span {}..{} outside {t:?}", sp.start, sp.end);
                }
                let joined: String = catch(|| p.segments().map(|s| s.0.to_string()).collect())?;
                ensure!(joined == t, "segments of {s:?} join to {joined:?}, not {t:?}");
                ensure!(p.len() == t.len() && p.is_empty() == t.is_empty() && p.is_plain() == p.spans().is_empty(), "{s:?}: len {} for {t:?}", p.len());
                for k in 0..t.len() {
                    let here: Vec<_> = p.spans().iter().filter(|s| s.start <= k && k < s.end).collect();
                    ensure!(p.spans_at(k) == here, "{s:?}: spans at {k} are {:?}", p.spans_at(k));
                }
                // Without any bracket or backslash the text is literal.
                if !s.contains(['[', '\\']) {
                    ensure!(t == s && p.spans().is_empty(), "plain text {s:?} came out as {t:?}");
                }
                // Plain text is the source with tags and escapes removed.
                let mut out = String::new();
                let mut it = s.chars();
                while let Some(c) = it.next() {
                    match c {
                        '\\' => out.extend(it.next()),
                        '[' => {
                            let mut d = 1;
                            while d > 0 {
                                match it.next() {
                                    Some('[') => d += 1,
                                    Some(']') => d -= 1,
                                    Some('\\') => { it.next(); }
                                    Some(_) => {}
                                    None => return Err(format!("unclosed tag accepted in {s:?}")),
                                }
                            }
                        }
                        c => out.push(c),
                    }
                }
                ensure!(out == t, "text of {s:?} is {t:?}, expected {out:?}");
                Ok(())
            }
        }
    }
}
