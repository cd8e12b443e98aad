// Written by gen_ui.py.
use super::*;

fn p0() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(1) }
}
fn p1() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, 1) }
}
fn p2() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(1, 0, id: 1) }
}
fn p3() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: 1) }
}
fn p4() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: 1, n: 3) }
}
fn p5() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(1) { L0 } }
}
fn p6() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: 1) { } }
}
fn p7() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(1, 1, id: 1) { ..s(1) } }
}
fn p8() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(-1) }
}
fn p9() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, -1) }
}
fn p10() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(-1, 0, id: 1) }
}
fn p11() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: -1) }
}
fn p12() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: -1, n: 3) }
}
fn p13() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(-1) { L0 } }
}
fn p14() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: -1) { } }
}
fn p15() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(-1, 1, id: -1) { ..s(1) } }
}
fn p16() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1("a: b") }
}
fn p17() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, "a: b") }
}
fn p18() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2("a: b", 0, id: 1) }
}
fn p19() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: "a: b") }
}
fn p20() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: "a: b", n: 3) }
}
fn p21() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1("a: b") { L0 } }
}
fn p22() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: "a: b") { } }
}
fn p23() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("a: b", 1, id: "a: b") { ..s(1) } }
}
fn p24() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a) }
}
fn p25() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, a) }
}
fn p26() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(a, 0, id: 1) }
}
fn p27() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: a) }
}
fn p28() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: a, n: 3) }
}
fn p29() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(a) { L0 } }
}
fn p30() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: a) { } }
}
fn p31() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a, 1, id: a) { ..s(1) } }
}
fn p32() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a + 2 * 3) }
}
fn p33() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, a + 2 * 3) }
}
fn p34() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(a + 2 * 3, 0, id: 1) }
}
fn p35() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: a + 2 * 3) }
}
fn p36() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: a + 2 * 3, n: 3) }
}
fn p37() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(a + 2 * 3) { L0 } }
}
fn p38() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: a + 2 * 3) { } }
}
fn p39() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a + 2 * 3, 1, id: a + 2 * 3) { ..s(1) } }
}
fn p40() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::X) }
}
fn p41() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, m::X) }
}
fn p42() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(m::X, 0, id: 1) }
}
fn p43() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: m::X) }
}
fn p44() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: m::X, n: 3) }
}
fn p45() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(m::X) { L0 } }
}
fn p46() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: m::X) { } }
}
fn p47() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::X, 1, id: m::X) { ..s(1) } }
}
fn p48() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::f(1, 2)) }
}
fn p49() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, m::f(1, 2)) }
}
fn p50() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(m::f(1, 2), 0, id: 1) }
}
fn p51() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: m::f(1, 2)) }
}
fn p52() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: m::f(1, 2), n: 3) }
}
fn p53() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(m::f(1, 2)) { L0 } }
}
fn p54() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: m::f(1, 2)) { } }
}
fn p55() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), 1, id: m::f(1, 2)) { ..s(1) } }
}
fn p56() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a as u8) }
}
fn p57() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, a as u8) }
}
fn p58() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(a as u8, 0, id: 1) }
}
fn p59() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: a as u8) }
}
fn p60() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: a as u8, n: 3) }
}
fn p61() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(a as u8) { L0 } }
}
fn p62() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: a as u8) { } }
}
fn p63() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a as u8, 1, id: a as u8) { ..s(1) } }
}
fn p64() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(format!("{a},{}", 2)) }
}
fn p65() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, format!("{a},{}", 2)) }
}
fn p66() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(format!("{a},{}", 2), 0, id: 1) }
}
fn p67() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: format!("{a},{}", 2)) }
}
fn p68() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: format!("{a},{}", 2), n: 3) }
}
fn p69() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(format!("{a},{}", 2)) { L0 } }
}
fn p70() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: format!("{a},{}", 2)) { } }
}
fn p71() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(format!("{a},{}", 2), 1, id: format!("{a},{}", 2)) { ..s(1) } }
}
fn p72() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1([1, 2]) }
}
fn p73() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, [1, 2]) }
}
fn p74() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2([1, 2], 0, id: 1) }
}
fn p75() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: [1, 2]) }
}
fn p76() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: [1, 2], n: 3) }
}
fn p77() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1([1, 2]) { L0 } }
}
fn p78() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: [1, 2]) { } }
}
fn p79() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2([1, 2], 1, id: [1, 2]) { ..s(1) } }
}
fn p80() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((1, "t")) }
}
fn p81() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, (1, "t")) }
}
fn p82() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2((1, "t"), 0, id: 1) }
}
fn p83() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: (1, "t")) }
}
fn p84() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: (1, "t"), n: 3) }
}
fn p85() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1((1, "t")) { L0 } }
}
fn p86() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: (1, "t")) { } }
}
fn p87() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((1, "t"), 1, id: (1, "t")) { ..s(1) } }
}
fn p88() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: 1 }) }
}
fn p89() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, P { x: 1 }) }
}
fn p90() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(P { x: 1 }, 0, id: 1) }
}
fn p91() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: P { x: 1 }) }
}
fn p92() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: P { x: 1 }, n: 3) }
}
fn p93() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(P { x: 1 }) { L0 } }
}
fn p94() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: P { x: 1 }) { } }
}
fn p95() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(P { x: 1 }, 1, id: P { x: 1 }) { ..s(1) } }
}
fn p96() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(if a > 3 { 1 } else { 2 }) }
}
fn p97() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, if a > 3 { 1 } else { 2 }) }
}
fn p98() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(if a > 3 { 1 } else { 2 }, 0, id: 1) }
}
fn p99() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: if a > 3 { 1 } else { 2 }) }
}
fn p100() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: if a > 3 { 1 } else { 2 }, n: 3) }
}
fn p101() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(if a > 3 { 1 } else { 2 }) { L0 } }
}
fn p102() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: if a > 3 { 1 } else { 2 }) { } }
}
fn p103() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, 1, id: if a > 3 { 1 } else { 2 }) { ..s(1) } }
}
fn p104() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1({ let b = a; b }) }
}
fn p105() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, { let b = a; b }) }
}
fn p106() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2({ let b = a; b }, 0, id: 1) }
}
fn p107() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: { let b = a; b }) }
}
fn p108() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: { let b = a; b }, n: 3) }
}
fn p109() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1({ let b = a; b }) { L0 } }
}
fn p110() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: { let b = a; b }) { } }
}
fn p111() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2({ let b = a; b }, 1, id: { let b = a; b }) { ..s(1) } }
}
fn p112() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(match a { 7 => "s", _ => "o" }) }
}
fn p113() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, match a { 7 => "s", _ => "o" }) }
}
fn p114() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(match a { 7 => "s", _ => "o" }, 0, id: 1) }
}
fn p115() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: match a { 7 => "s", _ => "o" }) }
}
fn p116() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: match a { 7 => "s", _ => "o" }, n: 3) }
}
fn p117() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(match a { 7 => "s", _ => "o" }) { L0 } }
}
fn p118() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: match a { 7 => "s", _ => "o" }) { } }
}
fn p119() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(match a { 7 => "s", _ => "o" }, 1, id: match a { 7 => "s", _ => "o" }) { ..s(1) } }
}
fn p120() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(s(2).len()) }
}
fn p121() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, s(2).len()) }
}
fn p122() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(s(2).len(), 0, id: 1) }
}
fn p123() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: s(2).len()) }
}
fn p124() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: s(2).len(), n: 3) }
}
fn p125() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(s(2).len()) { L0 } }
}
fn p126() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: s(2).len()) { } }
}
fn p127() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(s(2).len(), 1, id: s(2).len()) { ..s(1) } }
}
fn p128() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(&a) }
}
fn p129() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, &a) }
}
fn p130() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(&a, 0, id: 1) }
}
fn p131() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: &a) }
}
fn p132() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: &a, n: 3) }
}
fn p133() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(&a) { L0 } }
}
fn p134() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: &a) { } }
}
fn p135() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(&a, 1, id: &a) { ..s(1) } }
}
fn p136() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(!true) }
}
fn p137() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, !true) }
}
fn p138() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(!true, 0, id: 1) }
}
fn p139() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: !true) }
}
fn p140() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: !true, n: 3) }
}
fn p141() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(!true) { L0 } }
}
fn p142() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: !true) { } }
}
fn p143() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(!true, 1, id: !true) { ..s(1) } }
}
fn p144() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a)) }
}
fn p145() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, (|v: i32| v + 1)(a)) }
}
fn p146() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2((|v: i32| v + 1)(a), 0, id: 1) }
}
fn p147() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: (|v: i32| v + 1)(a)) }
}
fn p148() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: (|v: i32| v + 1)(a), n: 3) }
}
fn p149() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1((|v: i32| v + 1)(a)) { L0 } }
}
fn p150() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: (|v: i32| v + 1)(a)) { } }
}
fn p151() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((|v: i32| v + 1)(a), 1, id: (|v: i32| v + 1)(a)) { ..s(1) } }
}
fn p152() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a < 9) }
}
fn p153() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, a < 9) }
}
fn p154() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(a < 9, 0, id: 1) }
}
fn p155() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: a < 9) }
}
fn p156() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: a < 9, n: 3) }
}
fn p157() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(a < 9) { L0 } }
}
fn p158() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: a < 9) { } }
}
fn p159() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a < 9, 1, id: a < 9) { ..s(1) } }
}
fn p160() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(Some::<i32>(1)) }
}
fn p161() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, Some::<i32>(1)) }
}
fn p162() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(Some::<i32>(1), 0, id: 1) }
}
fn p163() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: Some::<i32>(1)) }
}
fn p164() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: Some::<i32>(1), n: 3) }
}
fn p165() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(Some::<i32>(1)) { L0 } }
}
fn p166() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: Some::<i32>(1)) { } }
}
fn p167() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(Some::<i32>(1), 1, id: Some::<i32>(1)) { ..s(1) } }
}
fn p168() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1("x".to_string()) }
}
fn p169() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, "x".to_string()) }
}
fn p170() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2("x".to_string(), 0, id: 1) }
}
fn p171() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: "x".to_string()) }
}
fn p172() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: "x".to_string(), n: 3) }
}
fn p173() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1("x".to_string()) { L0 } }
}
fn p174() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: "x".to_string()) { } }
}
fn p175() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), 1, id: "x".to_string()) { ..s(1) } }
}
fn p176() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(b'c') }
}
fn p177() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, b'c') }
}
fn p178() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(b'c', 0, id: 1) }
}
fn p179() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: b'c') }
}
fn p180() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: b'c', n: 3) }
}
fn p181() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(b'c') { L0 } }
}
fn p182() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: b'c') { } }
}
fn p183() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(b'c', 1, id: b'c') { ..s(1) } }
}
fn p184() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(1..3) }
}
fn p185() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, 1..3) }
}
fn p186() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(1..3, 0, id: 1) }
}
fn p187() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: 1..3) }
}
fn p188() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: 1..3, n: 3) }
}
fn p189() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(1..3) { L0 } }
}
fn p190() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: 1..3) { } }
}
fn p191() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(1..3, 1, id: 1..3) { ..s(1) } }
}
fn p192() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(i32::MAX) }
}
fn p193() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, i32::MAX) }
}
fn p194() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(i32::MAX, 0, id: 1) }
}
fn p195() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: i32::MAX) }
}
fn p196() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: i32::MAX, n: 3) }
}
fn p197() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(i32::MAX) { L0 } }
}
fn p198() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: i32::MAX) { } }
}
fn p199() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(i32::MAX, 1, id: i32::MAX) { ..s(1) } }
}
fn p200() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(tick()) }
}
fn p201() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, tick()) }
}
fn p202() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(tick(), 0, id: 1) }
}
fn p203() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: tick()) }
}
fn p204() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: tick(), n: 3) }
}
fn p205() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(tick()) { L0 } }
}
fn p206() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: tick()) { } }
}
fn p207() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(tick(), 1, id: tick()) { ..s(1) } }
}
fn p208() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(vec![a, a]) }
}
fn p209() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, vec![a, a]) }
}
fn p210() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(vec![a, a], 0, id: 1) }
}
fn p211() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: vec![a, a]) }
}
fn p212() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: vec![a, a], n: 3) }
}
fn p213() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(vec![a, a]) { L0 } }
}
fn p214() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: vec![a, a]) { } }
}
fn p215() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(vec![a, a], 1, id: vec![a, a]) { ..s(1) } }
}
fn p216() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x) }
}
fn p217() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, P { x: a }.x) }
}
fn p218() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(P { x: a }.x, 0, id: 1) }
}
fn p219() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: P { x: a }.x) }
}
fn p220() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: P { x: a }.x, n: 3) }
}
fn p221() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(P { x: a }.x) { L0 } }
}
fn p222() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: P { x: a }.x) { } }
}
fn p223() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(P { x: a }.x, 1, id: P { x: a }.x) { ..s(1) } }
}
fn p224() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(<i32>::MIN) }
}
fn p225() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, <i32>::MIN) }
}
fn p226() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(<i32>::MIN, 0, id: 1) }
}
fn p227() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: <i32>::MIN) }
}
fn p228() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: <i32>::MIN, n: 3) }
}
fn p229() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(<i32>::MIN) { L0 } }
}
fn p230() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: <i32>::MIN) { } }
}
fn p231() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(<i32>::MIN, 1, id: <i32>::MIN) { ..s(1) } }
}
fn p232() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((a)) }
}
fn p233() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, (a)) }
}
fn p234() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2((a), 0, id: 1) }
}
fn p235() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: (a)) }
}
fn p236() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: (a), n: 3) }
}
fn p237() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1((a)) { L0 } }
}
fn p238() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: (a)) { } }
}
fn p239() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((a), 1, id: (a)) { ..s(1) } }
}
fn p240() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(r#"q"#) }
}
fn p241() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, r#"q"#) }
}
fn p242() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(r#"q"#, 0, id: 1) }
}
fn p243() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: r#"q"#) }
}
fn p244() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: r#"q"#, n: 3) }
}
fn p245() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(r#"q"#) { L0 } }
}
fn p246() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: r#"q"#) { } }
}
fn p247() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, 1, id: r#"q"#) { ..s(1) } }
}
fn p248() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(*&a) }
}
fn p249() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, *&a) }
}
fn p250() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(*&a, 0, id: 1) }
}
fn p251() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: *&a) }
}
fn p252() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: *&a, n: 3) }
}
fn p253() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(*&a) { L0 } }
}
fn p254() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: *&a) { } }
}
fn p255() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(*&a, 1, id: *&a) { ..s(1) } }
}
fn p256() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a == 7 && a != 8) }
}
fn p257() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(0, a == 7 && a != 8) }
}
fn p258() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(a == 7 && a != 8, 0, id: 1) }
}
fn p259() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(id: a == 7 && a != 8) }
}
fn p260() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(2, id: a == 7 && a != 8, n: 3) }
}
fn p261() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(a == 7 && a != 8) { L0 } }
}
fn p262() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(n: a == 7 && a != 8) { } }
}
fn p263() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a == 7 && a != 8, 1, id: a == 7 && a != 8) { ..s(1) } }
}
fn p264() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 }
}
fn p265() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() }
}
fn p266() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::f(1, 2)) }
}
fn p267() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1([1, 2], id: (1, "t")) }
}
fn p268() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }
}
fn p269() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(s(2).len(), &a, n: !true,) }
}
fn p270() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: (|v: i32| v + 1)(a)) }
}
fn p271() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v }
}
fn p272() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) }
}
fn p273() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) }
}
fn p274() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() }
}
fn p275() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } }
}
fn p276() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } }
}
fn p277() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p278() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) }
}
fn p279() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] }
}
fn p280() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } }
}
fn p281() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } }
}
fn p282() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } }
}
fn p283() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: i32::MAX) {  } }
}
fn p284() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(P { x: a }.x) {  } }
}
fn p285() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } }
}
fn p286() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0 }
}
fn p287() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() L0 }
}
fn p288() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(if a > 3 { 1 } else { 2 }) L0 }
}
fn p289() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a), id: a < 9) L0 }
}
fn p290() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: i32::MAX, id: tick()) L0 }
}
fn p291() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(r#"q"#, *&a, n: a == 7 && a != 8,) L0 }
}
fn p292() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: a) L0 }
}
fn p293() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v L0 }
}
fn p294() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0 }
}
fn p295() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) L0 }
}
fn p296() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L0 }
}
fn p297() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } L0 }
}
fn p298() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } L0 }
}
fn p299() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0 }
}
fn p300() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) L0 }
}
fn p301() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] L0 }
}
fn p302() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } L0 }
}
fn p303() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } L0 }
}
fn p304() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L0 }
}
fn p305() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } L0 }
}
fn p306() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() }
}
fn p307() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() L0() }
}
fn p308() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(1) L0() }
}
fn p309() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::f(1, 2), id: a as u8) L0() }
}
fn p310() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0() }
}
fn p311() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) L0() }
}
fn p312() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: i32::MAX) L0() }
}
fn p313() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v L0() }
}
fn p314() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0() }
}
fn p315() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) L0() }
}
fn p316() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L0() }
}
fn p317() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } L0() }
}
fn p318() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } L0() }
}
fn p319() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() }
}
fn p320() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) L0() }
}
fn p321() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] L0() }
}
fn p322() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } L0() }
}
fn p323() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } L0() }
}
fn p324() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L0() }
}
fn p325() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a, a + 2 * 3, n: m::X, id: a) {  } L0() }
}
fn p326() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L1(if a > 3 { 1 } else { 2 }) }
}
fn p327() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() L1((|v: i32| v + 1)(a)) }
}
fn p328() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1("x".to_string()) L1(i32::MAX) }
}
fn p329() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x, id: <i32>::MIN) L1(r#"q"#) }
}
fn p330() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: 1, id: -1) L1(a) }
}
fn p331() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(m::f(1, 2), a as u8, n: format!("{a},{}", 2),) L1([1, 2]) }
}
fn p332() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: if a > 3 { 1 } else { 2 }) L1(s(2).len()) }
}
fn p333() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v L1((|v: i32| v + 1)(a)) }
}
fn p334() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L1("x".to_string()) }
}
fn p335() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) L1(i32::MAX) }
}
fn p336() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L1(P { x: a }.x) }
}
fn p337() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } L1(r#"q"#) }
}
fn p338() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } L1(1) }
}
fn p339() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) L1(a) }
}
fn p340() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) L1(m::f(1, 2)) }
}
fn p341() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] L1([1, 2]) }
}
fn p342() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } L1(if a > 3 { 1 } else { 2 }) }
}
fn p343() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } L1(s(2).len()) }
}
fn p344() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1("x".to_string()) }
}
fn p345() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } L1(P { x: a }.x) }
}
fn p346() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L1(1, id: -1) }
}
fn p347() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() L1(m::f(1, 2), id: a as u8) }
}
fn p348() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }
}
fn p349() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(s(2).len(), id: &a) L1((|v: i32| v + 1)(a), id: a < 9) }
}
fn p350() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: "x".to_string(), id: b'c') L1(i32::MAX, id: tick()) }
}
fn p351() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(P { x: a }.x, <i32>::MIN, n: (a),) L1(r#"q"#, id: *&a) }
}
fn p352() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: 1) L1(a, id: a + 2 * 3) }
}
fn p353() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v L1(m::f(1, 2), id: a as u8) }
}
fn p354() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L1([1, 2], id: (1, "t")) }
}
fn p355() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }
}
fn p356() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L1(s(2).len(), id: &a) }
}
fn p357() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } L1((|v: i32| v + 1)(a), id: a < 9) }
}
fn p358() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } L1("x".to_string(), id: b'c') }
}
fn p359() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) L1(i32::MAX, id: tick()) }
}
fn p360() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) L1(P { x: a }.x, id: <i32>::MIN) }
}
fn p361() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] L1(r#"q"#, id: *&a) }
}
fn p362() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } L1(1, id: -1) }
}
fn p363() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } L1(a, id: a + 2 * 3) }
}
fn p364() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1([1, 2], id: (1, "t")) }
}
fn p365() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } L1(s(2).len(), id: &a) }
}
fn p366() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0(classes: "x".to_string(), id: b'c') }
}
fn p367() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() L0(classes: P { x: a }.x, id: <i32>::MIN) }
}
fn p368() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(r#"q"#) L0(classes: 1, id: -1) }
}
fn p369() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a, id: a + 2 * 3) L0(classes: m::f(1, 2), id: a as u8) }
}
fn p370() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: [1, 2], id: (1, "t")) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }
}
fn p371() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(s(2).len(), &a, n: !true,) L0(classes: (|v: i32| v + 1)(a), id: a < 9) }
}
fn p372() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: "x".to_string()) L0(classes: i32::MAX, id: tick()) }
}
fn p373() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v L0(classes: P { x: a }.x, id: <i32>::MIN) }
}
fn p374() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0(classes: r#"q"#, id: *&a) }
}
fn p375() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) L0(classes: 1, id: -1) }
}
fn p376() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L0(classes: a, id: a + 2 * 3) }
}
fn p377() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } L0(classes: m::f(1, 2), id: a as u8) }
}
fn p378() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } L0(classes: [1, 2], id: (1, "t")) }
}
fn p379() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }
}
fn p380() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) L0(classes: s(2).len(), id: &a) }
}
fn p381() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] L0(classes: (|v: i32| v + 1)(a), id: a < 9) }
}
fn p382() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } L0(classes: "x".to_string(), id: b'c') }
}
fn p383() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } L0(classes: i32::MAX, id: tick()) }
}
fn p384() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L0(classes: r#"q"#, id: *&a) }
}
fn p385() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(1, -1, n: "a: b", id: 1) {  } L0(classes: a, id: a + 2 * 3) }
}
fn p386() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L2([1, 2], (1, "t"), n: P { x: 1 },) }
}
fn p387() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() L2(s(2).len(), &a, n: !true,) }
}
fn p388() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a)) L2("x".to_string(), b'c', n: 1..3,) }
}
fn p389() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),) }
}
fn p390() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: r#"q"#, id: *&a) L2(1, -1, n: "a: b",) }
}
fn p391() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(a, a + 2 * 3, n: m::X,) L2(m::f(1, 2), a as u8, n: format!("{a},{}", 2),) }
}
fn p392() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: [1, 2]) L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" },) }
}
fn p393() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v L2(s(2).len(), &a, n: !true,) }
}
fn p394() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) }
}
fn p395() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) L2("x".to_string(), b'c', n: 1..3,) }
}
fn p396() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L2(i32::MAX, tick(), n: vec![a, a],) }
}
fn p397() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } L2(P { x: a }.x, <i32>::MIN, n: (a),) }
}
fn p398() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } L2(r#"q"#, *&a, n: a == 7 && a != 8,) }
}
fn p399() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) L2(1, -1, n: "a: b",) }
}
fn p400() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) L2(a, a + 2 * 3, n: m::X,) }
}
fn p401() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] L2(m::f(1, 2), a as u8, n: format!("{a},{}", 2),) }
}
fn p402() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } L2([1, 2], (1, "t"), n: P { x: 1 },) }
}
fn p403() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" },) }
}
fn p404() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) }
}
fn p405() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) {  } L2(i32::MAX, tick(), n: vec![a, a],) }
}
fn p406() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 F1(|v: i32| v + 1, n: r#"q"#) }
}
fn p407() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() F1(|v: i32| v + 1, n: a) }
}
fn p408() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::f(1, 2)) F1(|v: i32| v + 1, n: [1, 2]) }
}
fn p409() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) F1(|v: i32| v + 1, n: s(2).len()) }
}
fn p410() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: (|v: i32| v + 1)(a), id: a < 9) F1(|v: i32| v + 1, n: "x".to_string()) }
}
fn p411() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(i32::MAX, tick(), n: vec![a, a],) F1(|v: i32| v + 1, n: P { x: a }.x) }
}
fn p412() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: r#"q"#) F1(|v: i32| v + 1, n: 1) }
}
fn p413() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v F1(|v: i32| v + 1, n: a) }
}
fn p414() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) F1(|v: i32| v + 1, n: m::f(1, 2)) }
}
fn p415() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) F1(|v: i32| v + 1, n: [1, 2]) }
}
fn p416() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() F1(|v: i32| v + 1, n: if a > 3 { 1 } else { 2 }) }
}
fn p417() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } F1(|v: i32| v + 1, n: s(2).len()) }
}
fn p418() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } F1(|v: i32| v + 1, n: (|v: i32| v + 1)(a)) }
}
fn p419() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) F1(|v: i32| v + 1, n: "x".to_string()) }
}
fn p420() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) F1(|v: i32| v + 1, n: i32::MAX) }
}
fn p421() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] F1(|v: i32| v + 1, n: P { x: a }.x) }
}
fn p422() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } F1(|v: i32| v + 1, n: r#"q"#) }
}
fn p423() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } F1(|v: i32| v + 1, n: 1) }
}
fn p424() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } F1(|v: i32| v + 1, n: m::f(1, 2)) }
}
fn p425() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } F1(|v: i32| v + 1, n: if a > 3 { 1 } else { 2 }) }
}
fn p426() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { L0 ..v }
}
fn p427() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { L0() ..v }
}
fn p428() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { L1("x".to_string()) ..v }
}
fn p429() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { L1(i32::MAX, id: tick()) ..v }
}
fn p430() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { L0(classes: P { x: a }.x, id: <i32>::MIN) ..v }
}
fn p431() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { L2(r#"q"#, *&a, n: a == 7 && a != 8,) ..v }
}
fn p432() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { F1(|v: i32| v + 1, n: 1) ..v }
}
fn p433() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..s(2) ..v }
}
fn p434() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..s(0) ..v }
}
fn p435() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..s(2).into_iter().rev() ..v }
}
fn p436() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..ui! { L1(1) L0 } ..v }
}
fn p437() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..if a > 3 { s(1) } else { s(0) } ..v }
}
fn p438() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) ..v }
}
fn p439() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..Some(widget! { C0 { L1(2) } }) ..v }
}
fn p440() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..vec![widget! { L0 }] ..v }
}
fn p441() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..{ s(1) } ..v }
}
fn p442() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..match a { _ => s(1) } ..v }
}
fn p443() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { C0 {  } ..v }
}
fn p444() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) {  } ..v }
}
fn p445() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 ..s(2) }
}
fn p446() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() ..s(2) }
}
fn p447() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(s(2).len()) ..s(2) }
}
fn p448() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a), id: a < 9) ..s(2) }
}
fn p449() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: "x".to_string(), id: b'c') ..s(2) }
}
fn p450() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(i32::MAX, tick(), n: vec![a, a],) ..s(2) }
}
fn p451() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: P { x: a }.x) ..s(2) }
}
fn p452() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v ..s(2) }
}
fn p453() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) ..s(2) }
}
fn p454() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) ..s(2) }
}
fn p455() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..s(2) }
}
fn p456() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } ..s(2) }
}
fn p457() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } ..s(2) }
}
fn p458() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) ..s(2) }
}
fn p459() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) ..s(2) }
}
fn p460() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] ..s(2) }
}
fn p461() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } ..s(2) }
}
fn p462() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } ..s(2) }
}
fn p463() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2) }
}
fn p464() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(1, -1, n: "a: b", id: 1) {  } ..s(2) }
}
fn p465() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 ..s(0) }
}
fn p466() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() ..s(0) }
}
fn p467() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1([1, 2]) ..s(0) }
}
fn p468() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) ..s(0) }
}
fn p469() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: s(2).len(), id: &a) ..s(0) }
}
fn p470() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) ..s(0) }
}
fn p471() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: "x".to_string()) ..s(0) }
}
fn p472() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v ..s(0) }
}
fn p473() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) ..s(0) }
}
fn p474() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) ..s(0) }
}
fn p475() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..s(0) }
}
fn p476() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } ..s(0) }
}
fn p477() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } ..s(0) }
}
fn p478() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) ..s(0) }
}
fn p479() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) ..s(0) }
}
fn p480() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] ..s(0) }
}
fn p481() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } ..s(0) }
}
fn p482() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } ..s(0) }
}
fn p483() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(0) }
}
fn p484() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } ..s(0) }
}
fn p485() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 ..s(2).into_iter().rev() }
}
fn p486() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() ..s(2).into_iter().rev() }
}
fn p487() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a) ..s(2).into_iter().rev() }
}
fn p488() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::f(1, 2), id: a as u8) ..s(2).into_iter().rev() }
}
fn p489() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: [1, 2], id: (1, "t")) ..s(2).into_iter().rev() }
}
fn p490() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" },) ..s(2).into_iter().rev() }
}
fn p491() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: s(2).len()) ..s(2).into_iter().rev() }
}
fn p492() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v ..s(2).into_iter().rev() }
}
fn p493() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) ..s(2).into_iter().rev() }
}
fn p494() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) ..s(2).into_iter().rev() }
}
fn p495() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..s(2).into_iter().rev() }
}
fn p496() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } ..s(2).into_iter().rev() }
}
fn p497() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } ..s(2).into_iter().rev() }
}
fn p498() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) ..s(2).into_iter().rev() }
}
fn p499() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) ..s(2).into_iter().rev() }
}
fn p500() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] ..s(2).into_iter().rev() }
}
fn p501() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } ..s(2).into_iter().rev() }
}
fn p502() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } ..s(2).into_iter().rev() }
}
fn p503() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2).into_iter().rev() }
}
fn p504() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) {  } ..s(2).into_iter().rev() }
}
fn p505() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 ..ui! { L1(1) L0 } }
}
fn p506() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() ..ui! { L1(1) L0 } }
}
fn p507() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(r#"q"#) ..ui! { L1(1) L0 } }
}
fn p508() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(1, id: -1) ..ui! { L1(1) L0 } }
}
fn p509() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: a, id: a + 2 * 3) ..ui! { L1(1) L0 } }
}
fn p510() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(m::f(1, 2), a as u8, n: format!("{a},{}", 2),) ..ui! { L1(1) L0 } }
}
fn p511() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: [1, 2]) ..ui! { L1(1) L0 } }
}
fn p512() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v ..ui! { L1(1) L0 } }
}
fn p513() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) ..ui! { L1(1) L0 } }
}
fn p514() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) ..ui! { L1(1) L0 } }
}
fn p515() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..ui! { L1(1) L0 } }
}
fn p516() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } ..ui! { L1(1) L0 } }
}
fn p517() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } ..ui! { L1(1) L0 } }
}
fn p518() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) ..ui! { L1(1) L0 } }
}
fn p519() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) ..ui! { L1(1) L0 } }
}
fn p520() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] ..ui! { L1(1) L0 } }
}
fn p521() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } ..ui! { L1(1) L0 } }
}
fn p522() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } ..ui! { L1(1) L0 } }
}
fn p523() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..ui! { L1(1) L0 } }
}
fn p524() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } ..ui! { L1(1) L0 } }
}
fn p525() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 ..if a > 3 { s(1) } else { s(0) } }
}
fn p526() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() ..if a > 3 { s(1) } else { s(0) } }
}
fn p527() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(i32::MAX) ..if a > 3 { s(1) } else { s(0) } }
}
fn p528() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x, id: <i32>::MIN) ..if a > 3 { s(1) } else { s(0) } }
}
fn p529() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: r#"q"#, id: *&a) ..if a > 3 { s(1) } else { s(0) } }
}
fn p530() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(1, -1, n: "a: b",) ..if a > 3 { s(1) } else { s(0) } }
}
fn p531() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: a) ..if a > 3 { s(1) } else { s(0) } }
}
fn p532() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v ..if a > 3 { s(1) } else { s(0) } }
}
fn p533() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) ..if a > 3 { s(1) } else { s(0) } }
}
fn p534() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) ..if a > 3 { s(1) } else { s(0) } }
}
fn p535() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..if a > 3 { s(1) } else { s(0) } }
}
fn p536() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } ..if a > 3 { s(1) } else { s(0) } }
}
fn p537() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } ..if a > 3 { s(1) } else { s(0) } }
}
fn p538() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) ..if a > 3 { s(1) } else { s(0) } }
}
fn p539() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) ..if a > 3 { s(1) } else { s(0) } }
}
fn p540() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] ..if a > 3 { s(1) } else { s(0) } }
}
fn p541() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } ..if a > 3 { s(1) } else { s(0) } }
}
fn p542() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } ..if a > 3 { s(1) } else { s(0) } }
}
fn p543() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..if a > 3 { s(1) } else { s(0) } }
}
fn p544() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } ..if a > 3 { s(1) } else { s(0) } }
}
fn p545() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p546() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p547() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a)) ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p548() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1("x".to_string(), id: b'c') ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p549() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: i32::MAX, id: tick()) ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p550() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(P { x: a }.x, <i32>::MIN, n: (a),) ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p551() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: r#"q"#) ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p552() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p553() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p554() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p555() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p556() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p557() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p558() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p559() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p560() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p561() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p562() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p563() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p564() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a, a + 2 * 3, n: m::X, id: a) {  } ..(0..2).map(|i| widget! { L1(i, n: a) }) }
}
fn p565() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 ..Some(widget! { C0 { L1(2) } }) }
}
fn p566() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() ..Some(widget! { C0 { L1(2) } }) }
}
fn p567() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(if a > 3 { 1 } else { 2 }) ..Some(widget! { C0 { L1(2) } }) }
}
fn p568() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(s(2).len(), id: &a) ..Some(widget! { C0 { L1(2) } }) }
}
fn p569() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: (|v: i32| v + 1)(a), id: a < 9) ..Some(widget! { C0 { L1(2) } }) }
}
fn p570() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2("x".to_string(), b'c', n: 1..3,) ..Some(widget! { C0 { L1(2) } }) }
}
fn p571() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: i32::MAX) ..Some(widget! { C0 { L1(2) } }) }
}
fn p572() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v ..Some(widget! { C0 { L1(2) } }) }
}
fn p573() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) ..Some(widget! { C0 { L1(2) } }) }
}
fn p574() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) ..Some(widget! { C0 { L1(2) } }) }
}
fn p575() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..Some(widget! { C0 { L1(2) } }) }
}
fn p576() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } ..Some(widget! { C0 { L1(2) } }) }
}
fn p577() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } ..Some(widget! { C0 { L1(2) } }) }
}
fn p578() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) ..Some(widget! { C0 { L1(2) } }) }
}
fn p579() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) ..Some(widget! { C0 { L1(2) } }) }
}
fn p580() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] ..Some(widget! { C0 { L1(2) } }) }
}
fn p581() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } ..Some(widget! { C0 { L1(2) } }) }
}
fn p582() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } ..Some(widget! { C0 { L1(2) } }) }
}
fn p583() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..Some(widget! { C0 { L1(2) } }) }
}
fn p584() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } ..Some(widget! { C0 { L1(2) } }) }
}
fn p585() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 ..vec![widget! { L0 }] }
}
fn p586() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() ..vec![widget! { L0 }] }
}
fn p587() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::f(1, 2)) ..vec![widget! { L0 }] }
}
fn p588() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1([1, 2], id: (1, "t")) ..vec![widget! { L0 }] }
}
fn p589() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) ..vec![widget! { L0 }] }
}
fn p590() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(s(2).len(), &a, n: !true,) ..vec![widget! { L0 }] }
}
fn p591() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: (|v: i32| v + 1)(a)) ..vec![widget! { L0 }] }
}
fn p592() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v ..vec![widget! { L0 }] }
}
fn p593() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) ..vec![widget! { L0 }] }
}
fn p594() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) ..vec![widget! { L0 }] }
}
fn p595() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..vec![widget! { L0 }] }
}
fn p596() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } ..vec![widget! { L0 }] }
}
fn p597() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } ..vec![widget! { L0 }] }
}
fn p598() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) ..vec![widget! { L0 }] }
}
fn p599() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) ..vec![widget! { L0 }] }
}
fn p600() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] ..vec![widget! { L0 }] }
}
fn p601() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } ..vec![widget! { L0 }] }
}
fn p602() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } ..vec![widget! { L0 }] }
}
fn p603() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..vec![widget! { L0 }] }
}
fn p604() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } ..vec![widget! { L0 }] }
}
fn p605() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 ..{ s(1) } }
}
fn p606() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() ..{ s(1) } }
}
fn p607() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(1) ..{ s(1) } }
}
fn p608() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a, id: a + 2 * 3) ..{ s(1) } }
}
fn p609() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: m::f(1, 2), id: a as u8) ..{ s(1) } }
}
fn p610() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2([1, 2], (1, "t"), n: P { x: 1 },) ..{ s(1) } }
}
fn p611() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: if a > 3 { 1 } else { 2 }) ..{ s(1) } }
}
fn p612() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v ..{ s(1) } }
}
fn p613() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) ..{ s(1) } }
}
fn p614() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) ..{ s(1) } }
}
fn p615() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..{ s(1) } }
}
fn p616() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } ..{ s(1) } }
}
fn p617() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } ..{ s(1) } }
}
fn p618() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) ..{ s(1) } }
}
fn p619() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) ..{ s(1) } }
}
fn p620() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] ..{ s(1) } }
}
fn p621() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } ..{ s(1) } }
}
fn p622() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } ..{ s(1) } }
}
fn p623() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..{ s(1) } }
}
fn p624() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } ..{ s(1) } }
}
fn p625() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 ..match a { _ => s(1) } }
}
fn p626() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() ..match a { _ => s(1) } }
}
fn p627() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x) ..match a { _ => s(1) } }
}
fn p628() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(r#"q"#, id: *&a) ..match a { _ => s(1) } }
}
fn p629() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: 1, id: -1) ..match a { _ => s(1) } }
}
fn p630() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(a, a + 2 * 3, n: m::X,) ..match a { _ => s(1) } }
}
fn p631() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: m::f(1, 2)) ..match a { _ => s(1) } }
}
fn p632() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v ..match a { _ => s(1) } }
}
fn p633() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) ..match a { _ => s(1) } }
}
fn p634() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) ..match a { _ => s(1) } }
}
fn p635() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..match a { _ => s(1) } }
}
fn p636() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } ..match a { _ => s(1) } }
}
fn p637() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } ..match a { _ => s(1) } }
}
fn p638() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) ..match a { _ => s(1) } }
}
fn p639() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) ..match a { _ => s(1) } }
}
fn p640() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] ..match a { _ => s(1) } }
}
fn p641() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } ..match a { _ => s(1) } }
}
fn p642() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } ..match a { _ => s(1) } }
}
fn p643() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..match a { _ => s(1) } }
}
fn p644() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } ..match a { _ => s(1) } }
}
fn p645() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C0 {  } }
}
fn p646() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() C0 {  } }
}
fn p647() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x) C0 {  } }
}
fn p648() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(1, id: -1) C0 {  } }
}
fn p649() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: m::f(1, 2), id: a as u8) C0 {  } }
}
fn p650() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" },) C0 {  } }
}
fn p651() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: (|v: i32| v + 1)(a)) C0 {  } }
}
fn p652() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v C0 {  } }
}
fn p653() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C0 {  } }
}
fn p654() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) C0 {  } }
}
fn p655() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 {  } }
}
fn p656() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } C0 {  } }
}
fn p657() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } C0 {  } }
}
fn p658() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) C0 {  } }
}
fn p659() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) C0 {  } }
}
fn p660() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] C0 {  } }
}
fn p661() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } C0 {  } }
}
fn p662() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } C0 {  } }
}
fn p663() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } }
}
fn p664() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } C0 {  } }
}
fn p665() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) {  } }
}
fn p666() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0() C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } }
}
fn p667() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(s(2).len()) C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } }
}
fn p668() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1("x".to_string(), id: b'c') C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } }
}
fn p669() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(classes: P { x: a }.x, id: <i32>::MIN) C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } }
}
fn p670() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(1, -1, n: "a: b",) C2(a, a + 2 * 3, n: m::X, id: a) {  } }
}
fn p671() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { F1(|v: i32| v + 1, n: m::f(1, 2)) C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } }
}
fn p672() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..v C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } }
}
fn p673() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } }
}
fn p674() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(0) C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } }
}
fn p675() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) {  } }
}
fn p676() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..ui! { L1(1) L0 } C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } }
}
fn p677() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..if a > 3 { s(1) } else { s(0) } C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } }
}
fn p678() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..(0..2).map(|i| widget! { L1(i, n: a) }) C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } }
}
fn p679() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(2) } }) C2(1, -1, n: "a: b", id: 1) {  } }
}
fn p680() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..vec![widget! { L0 }] C2(a, a + 2 * 3, n: m::X, id: a) {  } }
}
fn p681() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..{ s(1) } C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) {  } }
}
fn p682() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..match a { _ => s(1) } C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } }
}
fn p683() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } }
}
fn p684() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) {  } }
}
fn p685() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 } }
}
fn p686() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0() } }
}
fn p687() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(a) } }
}
fn p688() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1([1, 2], id: (1, "t")) } }
}
fn p689() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0(classes: s(2).len(), id: &a) } }
}
fn p690() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L2("x".to_string(), b'c', n: 1..3,) } }
}
fn p691() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { F1(|v: i32| v + 1, n: P { x: a }.x) } }
}
fn p692() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { C0 { ..v } }
}
fn p693() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2) } }
}
fn p694() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(0) } }
}
fn p695() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() } }
}
fn p696() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..ui! { L1(1) L0 } } }
}
fn p697() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..if a > 3 { s(1) } else { s(0) } } }
}
fn p698() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..(0..2).map(|i| widget! { L1(i, n: a) }) } }
}
fn p699() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..Some(widget! { C0 { L1(2) } }) } }
}
fn p700() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..vec![widget! { L0 }] } }
}
fn p701() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..{ s(1) } } }
}
fn p702() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..match a { _ => s(1) } } }
}
fn p703() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } }
}
fn p704() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) {  } } }
}
fn p705() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 } }
}
fn p706() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L0() } }
}
fn p707() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L1(i32::MAX) } }
}
fn p708() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(1, -1, n: "a: b", id: 1) { L1(r#"q"#, id: *&a) } }
}
fn p709() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { L0(classes: a, id: a + 2 * 3) } }
}
fn p710() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { L2([1, 2], (1, "t"), n: P { x: 1 },) } }
}
fn p711() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { F1(|v: i32| v + 1, n: s(2).len()) } }
}
fn p712() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { ..v } }
}
fn p713() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { ..s(2) } }
}
fn p714() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { ..s(0) } }
}
fn p715() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { ..s(2).into_iter().rev() } }
}
fn p716() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(1, -1, n: "a: b", id: 1) { ..ui! { L1(1) L0 } } }
}
fn p717() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a, a + 2 * 3, n: m::X, id: a) { ..if a > 3 { s(1) } else { s(0) } } }
}
fn p718() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { ..(0..2).map(|i| widget! { L1(i, n: a) }) } }
}
fn p719() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { ..Some(widget! { C0 { L1(2) } }) } }
}
fn p720() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { ..vec![widget! { L0 }] } }
}
fn p721() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(s(2).len(), &a, n: !true, id: s(2).len()) { ..{ s(1) } } }
}
fn p722() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { ..match a { _ => s(1) } } }
}
fn p723() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C0 {  } } }
}
fn p724() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } } }
}
fn p725() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(1) L1(a) L1(m::f(1, 2)) }
}
fn p726() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L1([1, 2]) L1(if a > 3 { 1 } else { 2 }) }
}
fn p727() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L1((|v: i32| v + 1)(a)) L1("x".to_string()) }
}
fn p728() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1(P { x: a }.x) L1(r#"q"#) }
}
fn p729() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(1, -1, n: "a: b", id: 1) {  } L1(a) L1(m::f(1, 2)) }
}
fn p730() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1([1, 2]) ..s(2) L1(if a > 3 { 1 } else { 2 }) }
}
fn p731() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) ..s(2) L1(s(2).len()) }
}
fn p732() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 ..s(2) L1("x".to_string()) }
}
fn p733() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2) L1(P { x: a }.x) }
}
fn p734() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } ..s(2) L1(1) }
}
fn p735() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a) L0 L1([1, 2]) }
}
fn p736() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0 L1(s(2).len()) }
}
fn p737() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0 L1(i32::MAX) }
}
fn p738() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L0 L1(1) }
}
fn p739() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a, a + 2 * 3, n: m::X, id: a) {  } L0 L1([1, 2]) }
}
fn p740() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(if a > 3 { 1 } else { 2 }) C0 {  } L1((|v: i32| v + 1)(a)) }
}
fn p741() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C0 {  } L1(i32::MAX) }
}
fn p742() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C0 {  } L1(1) }
}
fn p743() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } L1([1, 2]) }
}
fn p744() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } C0 {  } L1((|v: i32| v + 1)(a)) }
}
fn p745() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1("x".to_string()) C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } L1(P { x: a }.x) }
}
fn p746() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } L1(1) }
}
fn p747() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) {  } L1([1, 2]) }
}
fn p748() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } L1((|v: i32| v + 1)(a)) }
}
fn p749() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) {  } C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } L1(P { x: a }.x) }
}
fn p750() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(r#"q"#) L1(1) ..s(2) }
}
fn p751() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L1(a) ..s(2) }
}
fn p752() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L1([1, 2]) ..s(2) }
}
fn p753() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1(s(2).len()) ..s(2) }
}
fn p754() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } L1("x".to_string()) ..s(2) }
}
fn p755() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(i32::MAX) ..s(2) ..s(2) }
}
fn p756() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) ..s(2) ..s(2) }
}
fn p757() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 ..s(2) ..s(2) }
}
fn p758() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2) ..s(2) }
}
fn p759() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(1, -1, n: "a: b", id: 1) {  } ..s(2) ..s(2) }
}
fn p760() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a) L0 ..s(2) }
}
fn p761() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0 ..s(2) }
}
fn p762() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0 ..s(2) }
}
fn p763() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L0 ..s(2) }
}
fn p764() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } L0 ..s(2) }
}
fn p765() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(r#"q"#) C0 {  } ..s(2) }
}
fn p766() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C0 {  } ..s(2) }
}
fn p767() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C0 {  } ..s(2) }
}
fn p768() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } ..s(2) }
}
fn p769() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } C0 {  } ..s(2) }
}
fn p770() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(i32::MAX) C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } ..s(2) }
}
fn p771() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } ..s(2) }
}
fn p772() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C2(a, a + 2 * 3, n: m::X, id: a) {  } ..s(2) }
}
fn p773() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } ..s(2) }
}
fn p774() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } ..s(2) }
}
fn p775() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a)) L1("x".to_string()) L0 }
}
fn p776() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L1(P { x: a }.x) L0 }
}
fn p777() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L1(a) L0 }
}
fn p778() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1(if a > 3 { 1 } else { 2 }) L0 }
}
fn p779() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } L1("x".to_string()) L0 }
}
fn p780() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x) ..s(2) L0 }
}
fn p781() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) ..s(2) L0 }
}
fn p782() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 ..s(2) L0 }
}
fn p783() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2) L0 }
}
fn p784() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } ..s(2) L0 }
}
fn p785() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1("x".to_string()) L0 L0 }
}
fn p786() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0 L0 }
}
fn p787() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0 L0 }
}
fn p788() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L0 L0 }
}
fn p789() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) {  } L0 L0 }
}
fn p790() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(r#"q"#) C0 {  } L0 }
}
fn p791() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C0 {  } L0 }
}
fn p792() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C0 {  } L0 }
}
fn p793() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } L0 }
}
fn p794() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } C0 {  } L0 }
}
fn p795() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::f(1, 2)) C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } L0 }
}
fn p796() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } L0 }
}
fn p797() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } L0 }
}
fn p798() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C2(1, -1, n: "a: b", id: 1) {  } L0 }
}
fn p799() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) {  } C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } L0 }
}
fn p800() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(s(2).len()) L1((|v: i32| v + 1)(a)) C0 {  } }
}
fn p801() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L1(i32::MAX) C0 {  } }
}
fn p802() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L1(1) C0 {  } }
}
fn p803() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1([1, 2]) C0 {  } }
}
fn p804() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } L1((|v: i32| v + 1)(a)) C0 {  } }
}
fn p805() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(i32::MAX) ..s(2) C0 {  } }
}
fn p806() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) ..s(2) C0 {  } }
}
fn p807() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 ..s(2) C0 {  } }
}
fn p808() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2) C0 {  } }
}
fn p809() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } ..s(2) C0 {  } }
}
fn p810() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a)) L0 C0 {  } }
}
fn p811() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0 C0 {  } }
}
fn p812() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0 C0 {  } }
}
fn p813() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L0 C0 {  } }
}
fn p814() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } L0 C0 {  } }
}
fn p815() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x) C0 {  } C0 {  } }
}
fn p816() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C0 {  } C0 {  } }
}
fn p817() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C0 {  } C0 {  } }
}
fn p818() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } C0 {  } }
}
fn p819() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } C0 {  } C0 {  } }
}
fn p820() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a) C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) {  } C0 {  } }
}
fn p821() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } C0 {  } }
}
fn p822() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) {  } C0 {  } }
}
fn p823() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } C0 {  } }
}
fn p824() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a, a + 2 * 3, n: m::X, id: a) {  } C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) {  } C0 {  } }
}
fn p825() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(if a > 3 { 1 } else { 2 }) L1(s(2).len()) C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } }
}
fn p826() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L1("x".to_string()) C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } }
}
fn p827() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L1(r#"q"#) C2(1, -1, n: "a: b", id: 1) {  } }
}
fn p828() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1(m::f(1, 2)) C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } }
}
fn p829() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } L1(s(2).len()) C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } }
}
fn p830() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1("x".to_string()) ..s(2) C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } }
}
fn p831() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) ..s(2) C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } }
}
fn p832() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 ..s(2) C2(1, -1, n: "a: b", id: 1) {  } }
}
fn p833() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2) C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) {  } }
}
fn p834() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } ..s(2) C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } }
}
fn p835() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(s(2).len()) L0 C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) {  } }
}
fn p836() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0 C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } }
}
fn p837() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0 C2(a, a + 2 * 3, n: m::X, id: a) {  } }
}
fn p838() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } }
}
fn p839() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } L0 C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) {  } }
}
fn p840() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(i32::MAX) C0 {  } C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } }
}
fn p841() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C0 {  } C2(a, a + 2 * 3, n: m::X, id: a) {  } }
}
fn p842() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C0 {  } C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } }
}
fn p843() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) {  } }
}
fn p844() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } C0 {  } C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } }
}
fn p845() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(1) C2(a, a + 2 * 3, n: m::X, id: a) {  } C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) {  } }
}
fn p846() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } }
}
fn p847() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) {  } }
}
fn p848() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } }
}
fn p849() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(1, -1, n: "a: b", id: 1) {  } C2(a, a + 2 * 3, n: m::X, id: a) {  } C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) {  } }
}
fn p850() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1([1, 2]) C0 { L1(if a > 3 { 1 } else { 2 }) } }
}
fn p851() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C0 { L1((|v: i32| v + 1)(a)) } }
}
fn p852() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C0 { L1(P { x: a }.x) } }
}
fn p853() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { L1(a) } }
}
fn p854() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } C0 { L1(if a > 3 { 1 } else { 2 }) } }
}
fn p855() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a)) C0 { ..s(2) } }
}
fn p856() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C0 { ..s(2) } }
}
fn p857() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C0 { ..s(2) } }
}
fn p858() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { ..s(2) } }
}
fn p859() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) {  } C0 { ..s(2) } }
}
fn p860() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(if a > 3 { 1 } else { 2 }) C0 { L0 } }
}
fn p861() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C0 { L0 } }
}
fn p862() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C0 { L0 } }
}
fn p863() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { L0 } }
}
fn p864() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } C0 { L0 } }
}
fn p865() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1("x".to_string()) C0 { C0 {  } } }
}
fn p866() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C0 { C0 {  } } }
}
fn p867() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C0 { C0 {  } } }
}
fn p868() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { C0 {  } } }
}
fn p869() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) {  } C0 { C0 {  } } }
}
fn p870() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(r#"q"#) C0 { C2(1, -1, n: "a: b", id: 1) {  } } }
}
fn p871() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C0 { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) {  } } }
}
fn p872() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C0 { C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } } }
}
fn p873() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } } }
}
fn p874() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } C0 { C2(1, -1, n: "a: b", id: 1) {  } } }
}
fn p875() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::f(1, 2)) C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { L1([1, 2]) } }
}
fn p876() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L1(s(2).len()) } }
}
fn p877() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L1(i32::MAX) } }
}
fn p878() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C2(a, a + 2 * 3, n: m::X, id: a) { L1(1) } }
}
fn p879() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) {  } C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { L1([1, 2]) } }
}
fn p880() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(s(2).len()) C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { ..s(2) } }
}
fn p881() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { ..s(2) } }
}
fn p882() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { ..s(2) } }
}
fn p883() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C2(1, -1, n: "a: b", id: 1) { ..s(2) } }
}
fn p884() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a, a + 2 * 3, n: m::X, id: a) {  } C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { ..s(2) } }
}
fn p885() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1([1, 2]) C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 } }
}
fn p886() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L0 } }
}
fn p887() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { L0 } }
}
fn p888() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { L0 } }
}
fn p889() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 } }
}
fn p890() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a)) C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C0 {  } } }
}
fn p891() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C0 {  } } }
}
fn p892() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C0 {  } } }
}
fn p893() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C2(s(2).len(), &a, n: !true, id: s(2).len()) { C0 {  } } }
}
fn p894() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C0 {  } } }
}
fn p895() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x) C2(1, -1, n: "a: b", id: 1) { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } } }
}
fn p896() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) {  } } }
}
fn p897() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } } }
}
fn p898() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) {  } } }
}
fn p899() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } C2(1, -1, n: "a: b", id: 1) { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } } }
}
fn p900() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(a) } L1([1, 2]) }
}
fn p901() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2) } L1(s(2).len()) }
}
fn p902() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 } L1(i32::MAX) }
}
fn p903() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } L1(1) }
}
fn p904() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C2(a, a + 2 * 3, n: m::X, id: a) {  } } L1([1, 2]) }
}
fn p905() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(s(2).len(), &a, n: !true, id: s(2).len()) { L1(if a > 3 { 1 } else { 2 }) } L1((|v: i32| v + 1)(a)) }
}
fn p906() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { ..s(2) } L1(i32::MAX) }
}
fn p907() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { L0 } L1(1) }
}
fn p908() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C0 {  } } L1([1, 2]) }
}
fn p909() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } } L1((|v: i32| v + 1)(a)) }
}
fn p910() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1("x".to_string()) } ..s(2) }
}
fn p911() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2) } ..s(2) }
}
fn p912() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 } ..s(2) }
}
fn p913() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } ..s(2) }
}
fn p914() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } } ..s(2) }
}
fn p915() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L1(s(2).len()) } ..s(2) }
}
fn p916() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { ..s(2) } ..s(2) }
}
fn p917() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 } ..s(2) }
}
fn p918() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(1, -1, n: "a: b", id: 1) { C0 {  } } ..s(2) }
}
fn p919() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) {  } } ..s(2) }
}
fn p920() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1([1, 2]) } L0 }
}
fn p921() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2) } L0 }
}
fn p922() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 } L0 }
}
fn p923() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } L0 }
}
fn p924() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } } L0 }
}
fn p925() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L1((|v: i32| v + 1)(a)) } L0 }
}
fn p926() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { ..s(2) } L0 }
}
fn p927() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a, a + 2 * 3, n: m::X, id: a) { L0 } L0 }
}
fn p928() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { C0 {  } } L0 }
}
fn p929() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } } L0 }
}
fn p930() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(P { x: a }.x) } C0 {  } }
}
fn p931() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2) } C0 {  } }
}
fn p932() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 } C0 {  } }
}
fn p933() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } C0 {  } }
}
fn p934() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } } C0 {  } }
}
fn p935() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { L1(a) } C0 {  } }
}
fn p936() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { ..s(2) } C0 {  } }
}
fn p937() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L0 } C0 {  } }
}
fn p938() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C0 {  } } C0 {  } }
}
fn p939() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) {  } } C0 {  } }
}
fn p940() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(if a > 3 { 1 } else { 2 }) } C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } }
}
fn p941() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2) } C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } }
}
fn p942() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 } C2(1, -1, n: "a: b", id: 1) {  } }
}
fn p943() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } }
}
fn p944() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } } C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } }
}
fn p945() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L1("x".to_string()) } C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } }
}
fn p946() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { ..s(2) } C2(1, -1, n: "a: b", id: 1) {  } }
}
fn p947() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { L0 } C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } }
}
fn p948() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(s(2).len(), &a, n: !true, id: s(2).len()) { C0 {  } } C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } }
}
fn p949() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) {  } } C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } }
}
fn p950() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(r#"q"#) L1(1) } }
}
fn p951() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2) L1(m::f(1, 2)) } }
}
fn p952() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 L1(s(2).len()) } }
}
fn p953() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } L1(i32::MAX) } }
}
fn p954() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } L1(1) } }
}
fn p955() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(m::f(1, 2)) ..s(2) } }
}
fn p956() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2) ..s(2) } }
}
fn p957() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 ..s(2) } }
}
fn p958() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } ..s(2) } }
}
fn p959() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } ..s(2) } }
}
fn p960() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(1) L0 } }
}
fn p961() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2) L0 } }
}
fn p962() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 L0 } }
}
fn p963() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } L0 } }
}
fn p964() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C2(1, -1, n: "a: b", id: 1) {  } L0 } }
}
fn p965() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1([1, 2]) C0 {  } } }
}
fn p966() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2) C0 {  } } }
}
fn p967() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 C0 {  } } }
}
fn p968() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } C0 {  } } }
}
fn p969() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } C0 {  } } }
}
fn p970() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1((|v: i32| v + 1)(a)) C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) {  } } }
}
fn p971() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2) C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } } }
}
fn p972() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 C2(a, a + 2 * 3, n: m::X, id: a) {  } } }
}
fn p973() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } } }
}
fn p974() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) {  } } }
}
fn p975() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L1(P { x: a }.x) } } }
}
fn p976() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { ..s(2) } } }
}
fn p977() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L0 } } }
}
fn p978() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { C0 {  } } } }
}
fn p979() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } } } }
}
fn p980() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { L1(a) } } }
}
fn p981() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { ..s(2) } } }
}
fn p982() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L0 } } }
}
fn p983() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C0 {  } } } }
}
fn p984() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) {  } } } }
}
fn p985() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L1(if a > 3 { 1 } else { 2 }) L1(s(2).len()) } }
}
fn p986() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { ..s(2) L1("x".to_string()) } }
}
fn p987() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(1, -1, n: "a: b", id: 1) { L0 L1(r#"q"#) } }
}
fn p988() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { C0 {  } L1(m::f(1, 2)) } }
}
fn p989() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } L1(s(2).len()) } }
}
fn p990() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L1("x".to_string()) ..s(2) } }
}
fn p991() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { ..s(2) ..s(2) } }
}
fn p992() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(1, -1, n: "a: b", id: 1) { L0 ..s(2) } }
}
fn p993() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C0 {  } ..s(2) } }
}
fn p994() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } ..s(2) } }
}
fn p995() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L1(s(2).len()) L0 } }
}
fn p996() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { ..s(2) L0 } }
}
fn p997() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a, a + 2 * 3, n: m::X, id: a) { L0 L0 } }
}
fn p998() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { C0 {  } L0 } }
}
fn p999() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } L0 } }
}
fn p1000() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { L1(i32::MAX) C0 {  } } }
}
fn p1001() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a, a + 2 * 3, n: m::X, id: a) { ..s(2) C0 {  } } }
}
fn p1002() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { L0 C0 {  } } }
}
fn p1003() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { C0 {  } C0 {  } } }
}
fn p1004() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } C0 {  } } }
}
fn p1005() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { L1(1) C2(a, a + 2 * 3, n: m::X, id: a) {  } } }
}
fn p1006() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { ..s(2) C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } } }
}
fn p1007() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L0 C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } } }
}
fn p1008() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C0 {  } C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } } }
}
fn p1009() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C2(1, -1, n: "a: b", id: 1) {  } C2(a, a + 2 * 3, n: m::X, id: a) {  } } }
}
fn p1010() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(s(2).len(), &a, n: !true, id: s(2).len()) { C0 { L1([1, 2]) } } }
}
fn p1011() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { C0 { ..s(2) } } }
}
fn p1012() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C0 { L0 } } }
}
fn p1013() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C0 { C0 {  } } } }
}
fn p1014() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(s(2).len(), &a, n: !true, id: s(2).len()) { C0 { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } } } }
}
fn p1015() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L1((|v: i32| v + 1)(a)) } } }
}
fn p1016() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { ..s(2) } } }
}
fn p1017() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) { L0 } } }
}
fn p1018() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { C0 {  } } } }
}
fn p1019() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } } } }
}
fn p1020() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x, id: <i32>::MIN) L1(r#"q"#, id: *&a) L1(1, id: -1) L1(a, id: a + 2 * 3) }
}
fn p1021() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L1(m::f(1, 2), id: a as u8) L1([1, 2], id: (1, "t")) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }
}
fn p1022() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1((|v: i32| v + 1)(a), id: a < 9) L1("x".to_string(), id: b'c') L1(i32::MAX, id: tick()) }
}
fn p1023() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x, id: <i32>::MIN) ..s(2).into_iter().rev() L1(r#"q"#, id: *&a) L1(1, id: -1) }
}
fn p1024() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..s(2).into_iter().rev() L1(a, id: a + 2 * 3) L1(m::f(1, 2), id: a as u8) }
}
fn p1025() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2).into_iter().rev() L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L1(s(2).len(), id: &a) }
}
fn p1026() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a), id: a < 9) C0 {  } L1(i32::MAX, id: tick()) L1(P { x: a }.x, id: <i32>::MIN) }
}
fn p1027() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 {  } L1(1, id: -1) L1(a, id: a + 2 * 3) }
}
fn p1028() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L1(s(2).len(), id: &a) }
}
fn p1029() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a), id: a < 9) L1("x".to_string(), id: b'c') ..s(2).into_iter().rev() L1(i32::MAX, id: tick()) }
}
fn p1030() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L1(P { x: a }.x, id: <i32>::MIN) ..s(2).into_iter().rev() L1(r#"q"#, id: *&a) }
}
fn p1031() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1(a, id: a + 2 * 3) ..s(2).into_iter().rev() L1(m::f(1, 2), id: a as u8) }
}
fn p1032() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1([1, 2], id: (1, "t")) ..s(2).into_iter().rev() ..s(2).into_iter().rev() L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }
}
fn p1033() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..s(2).into_iter().rev() ..s(2).into_iter().rev() L1(s(2).len(), id: &a) }
}
fn p1034() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2).into_iter().rev() ..s(2).into_iter().rev() L1("x".to_string(), id: b'c') }
}
fn p1035() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(i32::MAX, id: tick()) C0 {  } ..s(2).into_iter().rev() L1(r#"q"#, id: *&a) }
}
fn p1036() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 {  } ..s(2).into_iter().rev() L1(a, id: a + 2 * 3) }
}
fn p1037() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } ..s(2).into_iter().rev() L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }
}
fn p1038() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(s(2).len(), id: &a) L1((|v: i32| v + 1)(a), id: a < 9) C0 {  } L1(i32::MAX, id: tick()) }
}
fn p1039() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L1(P { x: a }.x, id: <i32>::MIN) C0 {  } L1(1, id: -1) }
}
fn p1040() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1(m::f(1, 2), id: a as u8) C0 {  } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }
}
fn p1041() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(s(2).len(), id: &a) ..s(2).into_iter().rev() C0 {  } L1("x".to_string(), id: b'c') }
}
fn p1042() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 {  } L1(P { x: a }.x, id: <i32>::MIN) }
}
fn p1043() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2).into_iter().rev() C0 {  } L1(a, id: a + 2 * 3) }
}
fn p1044() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::f(1, 2), id: a as u8) C0 {  } C0 {  } L1(s(2).len(), id: &a) }
}
fn p1045() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 {  } C0 {  } L1(i32::MAX, id: tick()) }
}
fn p1046() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } C0 {  } L1(a, id: a + 2 * 3) }
}
fn p1047() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::f(1, 2), id: a as u8) L1([1, 2], id: (1, "t")) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) ..s(2).into_iter().rev() }
}
fn p1048() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L1(s(2).len(), id: &a) L1((|v: i32| v + 1)(a), id: a < 9) ..s(2).into_iter().rev() }
}
fn p1049() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1(i32::MAX, id: tick()) L1(P { x: a }.x, id: <i32>::MIN) ..s(2).into_iter().rev() }
}
fn p1050() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(r#"q"#, id: *&a) ..s(2).into_iter().rev() L1(1, id: -1) ..s(2).into_iter().rev() }
}
fn p1051() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..s(2).into_iter().rev() L1(a, id: a + 2 * 3) ..s(2).into_iter().rev() }
}
fn p1052() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2).into_iter().rev() L1([1, 2], id: (1, "t")) ..s(2).into_iter().rev() }
}
fn p1053() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) C0 {  } L1((|v: i32| v + 1)(a), id: a < 9) ..s(2).into_iter().rev() }
}
fn p1054() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 {  } L1(i32::MAX, id: tick()) ..s(2).into_iter().rev() }
}
fn p1055() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } L1(1, id: -1) ..s(2).into_iter().rev() }
}
fn p1056() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a, id: a + 2 * 3) L1(m::f(1, 2), id: a as u8) ..s(2).into_iter().rev() ..s(2).into_iter().rev() }
}
fn p1057() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L1([1, 2], id: (1, "t")) ..s(2).into_iter().rev() ..s(2).into_iter().rev() }
}
fn p1058() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1(s(2).len(), id: &a) ..s(2).into_iter().rev() ..s(2).into_iter().rev() }
}
fn p1059() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a), id: a < 9) ..s(2).into_iter().rev() ..s(2).into_iter().rev() ..s(2).into_iter().rev() }
}
fn p1060() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..s(2).into_iter().rev() ..s(2).into_iter().rev() ..s(2).into_iter().rev() }
}
fn p1061() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2).into_iter().rev() ..s(2).into_iter().rev() ..s(2).into_iter().rev() }
}
fn p1062() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(i32::MAX, id: tick()) C0 {  } ..s(2).into_iter().rev() ..s(2).into_iter().rev() }
}
fn p1063() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 {  } ..s(2).into_iter().rev() ..s(2).into_iter().rev() }
}
fn p1064() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } ..s(2).into_iter().rev() ..s(2).into_iter().rev() }
}
fn p1065() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::f(1, 2), id: a as u8) L1([1, 2], id: (1, "t")) C0 {  } ..s(2).into_iter().rev() }
}
fn p1066() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L1(s(2).len(), id: &a) C0 {  } ..s(2).into_iter().rev() }
}
fn p1067() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1(i32::MAX, id: tick()) C0 {  } ..s(2).into_iter().rev() }
}
fn p1068() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(r#"q"#, id: *&a) ..s(2).into_iter().rev() C0 {  } ..s(2).into_iter().rev() }
}
fn p1069() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 {  } ..s(2).into_iter().rev() }
}
fn p1070() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2).into_iter().rev() C0 {  } ..s(2).into_iter().rev() }
}
fn p1071() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) C0 {  } C0 {  } ..s(2).into_iter().rev() }
}
fn p1072() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 {  } C0 {  } ..s(2).into_iter().rev() }
}
fn p1073() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } C0 {  } ..s(2).into_iter().rev() }
}
fn p1074() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a, id: a + 2 * 3) L1(m::f(1, 2), id: a as u8) L1([1, 2], id: (1, "t")) C0 {  } }
}
fn p1075() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L1(s(2).len(), id: &a) L1((|v: i32| v + 1)(a), id: a < 9) C0 {  } }
}
fn p1076() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1(P { x: a }.x, id: <i32>::MIN) L1(r#"q"#, id: *&a) C0 {  } }
}
fn p1077() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a, id: a + 2 * 3) ..s(2).into_iter().rev() L1(m::f(1, 2), id: a as u8) C0 {  } }
}
fn p1078() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..s(2).into_iter().rev() L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) C0 {  } }
}
fn p1079() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2).into_iter().rev() L1("x".to_string(), id: b'c') C0 {  } }
}
fn p1080() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x, id: <i32>::MIN) C0 {  } L1(1, id: -1) C0 {  } }
}
fn p1081() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 {  } L1([1, 2], id: (1, "t")) C0 {  } }
}
fn p1082() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } L1("x".to_string(), id: b'c') C0 {  } }
}
fn p1083() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x, id: <i32>::MIN) L1(r#"q"#, id: *&a) ..s(2).into_iter().rev() C0 {  } }
}
fn p1084() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L1(a, id: a + 2 * 3) ..s(2).into_iter().rev() C0 {  } }
}
fn p1085() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) ..s(2).into_iter().rev() C0 {  } }
}
fn p1086() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a), id: a < 9) ..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 {  } }
}
fn p1087() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 {  } }
}
fn p1088() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 {  } }
}
fn p1089() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(1, id: -1) C0 {  } ..s(2).into_iter().rev() C0 {  } }
}
fn p1090() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 {  } ..s(2).into_iter().rev() C0 {  } }
}
fn p1091() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } ..s(2).into_iter().rev() C0 {  } }
}
fn p1092() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(i32::MAX, id: tick()) L1(P { x: a }.x, id: <i32>::MIN) C0 {  } C0 {  } }
}
fn p1093() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L1(a, id: a + 2 * 3) C0 {  } C0 {  } }
}
fn p1094() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1(s(2).len(), id: &a) C0 {  } C0 {  } }
}
fn p1095() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(i32::MAX, id: tick()) ..s(2).into_iter().rev() C0 {  } C0 {  } }
}
fn p1096() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 {  } C0 {  } }
}
fn p1097() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2).into_iter().rev() C0 {  } C0 {  } }
}
fn p1098() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(s(2).len(), id: &a) C0 {  } C0 {  } C0 {  } }
}
fn p1099() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 {  } C0 {  } C0 {  } }
}
fn p1100() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } C0 {  } C0 {  } }
}
fn p1101() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(s(2).len(), id: &a) L1((|v: i32| v + 1)(a), id: a < 9) C0 { L1("x".to_string(), id: b'c') } }
}
fn p1102() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L1(P { x: a }.x, id: <i32>::MIN) C0 { L1(r#"q"#, id: *&a) } }
}
fn p1103() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1(m::f(1, 2), id: a as u8) C0 { L1([1, 2], id: (1, "t")) } }
}
fn p1104() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(s(2).len(), id: &a) ..s(2).into_iter().rev() C0 { L1((|v: i32| v + 1)(a), id: a < 9) } }
}
fn p1105() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 { L1(i32::MAX, id: tick()) } }
}
fn p1106() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2).into_iter().rev() C0 { L1(1, id: -1) } }
}
fn p1107() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::f(1, 2), id: a as u8) C0 {  } C0 { L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) } }
}
fn p1108() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 {  } C0 { L1("x".to_string(), id: b'c') } }
}
fn p1109() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } C0 { L1(1, id: -1) } }
}
fn p1110() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::f(1, 2), id: a as u8) L1([1, 2], id: (1, "t")) C0 { ..s(2).into_iter().rev() } }
}
fn p1111() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L1(s(2).len(), id: &a) C0 { ..s(2).into_iter().rev() } }
}
fn p1112() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1(i32::MAX, id: tick()) C0 { ..s(2).into_iter().rev() } }
}
fn p1113() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(r#"q"#, id: *&a) ..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() } }
}
fn p1114() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() } }
}
fn p1115() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() } }
}
fn p1116() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) C0 {  } C0 { ..s(2).into_iter().rev() } }
}
fn p1117() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 {  } C0 { ..s(2).into_iter().rev() } }
}
fn p1118() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } C0 { ..s(2).into_iter().rev() } }
}
fn p1119() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a, id: a + 2 * 3) L1(m::f(1, 2), id: a as u8) C0 { C0 {  } } }
}
fn p1120() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() L1(s(2).len(), id: &a) C0 { C0 {  } } }
}
fn p1121() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } L1(P { x: a }.x, id: <i32>::MIN) C0 { C0 {  } } }
}
fn p1122() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a, id: a + 2 * 3) ..s(2).into_iter().rev() C0 { C0 {  } } }
}
fn p1123() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 { C0 {  } } }
}
fn p1124() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } ..s(2).into_iter().rev() C0 { C0 {  } } }
}
fn p1125() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x, id: <i32>::MIN) C0 {  } C0 { C0 {  } } }
}
fn p1126() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 {  } C0 { C0 {  } } }
}
fn p1127() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 {  } C0 { C0 {  } } }
}
fn p1128() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x, id: <i32>::MIN) C0 { L1(r#"q"#, id: *&a) } L1(a, id: a + 2 * 3) }
}
fn p1129() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { L1(m::f(1, 2), id: a as u8) } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }
}
fn p1130() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { L1((|v: i32| v + 1)(a), id: a < 9) } L1(i32::MAX, id: tick()) }
}
fn p1131() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x, id: <i32>::MIN) C0 { ..s(2).into_iter().rev() } L1(1, id: -1) }
}
fn p1132() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() } L1(m::f(1, 2), id: a as u8) }
}
fn p1133() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { ..s(2).into_iter().rev() } L1(s(2).len(), id: &a) }
}
fn p1134() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a), id: a < 9) C0 { C0 {  } } L1(P { x: a }.x, id: <i32>::MIN) }
}
fn p1135() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { C0 {  } } L1(a, id: a + 2 * 3) }
}
fn p1136() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { C0 {  } } L1(s(2).len(), id: &a) }
}
fn p1137() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a), id: a < 9) C0 { L1("x".to_string(), id: b'c') } ..s(2).into_iter().rev() }
}
fn p1138() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { L1(P { x: a }.x, id: <i32>::MIN) } ..s(2).into_iter().rev() }
}
fn p1139() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { L1(a, id: a + 2 * 3) } ..s(2).into_iter().rev() }
}
fn p1140() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1([1, 2], id: (1, "t")) C0 { ..s(2).into_iter().rev() } ..s(2).into_iter().rev() }
}
fn p1141() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() } ..s(2).into_iter().rev() }
}
fn p1142() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { ..s(2).into_iter().rev() } ..s(2).into_iter().rev() }
}
fn p1143() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(i32::MAX, id: tick()) C0 { C0 {  } } ..s(2).into_iter().rev() }
}
fn p1144() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { C0 {  } } ..s(2).into_iter().rev() }
}
fn p1145() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { C0 {  } } ..s(2).into_iter().rev() }
}
fn p1146() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(s(2).len(), id: &a) C0 { L1((|v: i32| v + 1)(a), id: a < 9) } C0 {  } }
}
fn p1147() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { L1(P { x: a }.x, id: <i32>::MIN) } C0 {  } }
}
fn p1148() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { L1(m::f(1, 2), id: a as u8) } C0 {  } }
}
fn p1149() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(s(2).len(), id: &a) C0 { ..s(2).into_iter().rev() } C0 {  } }
}
fn p1150() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() } C0 {  } }
}
fn p1151() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { ..s(2).into_iter().rev() } C0 {  } }
}
fn p1152() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::f(1, 2), id: a as u8) C0 { C0 {  } } C0 {  } }
}
fn p1153() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { C0 {  } } C0 {  } }
}
fn p1154() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { C0 {  } } C0 {  } }
}
fn p1155() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::f(1, 2), id: a as u8) C0 { L1([1, 2], id: (1, "t")) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) } }
}
fn p1156() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { L1((|v: i32| v + 1)(a), id: a < 9) L1("x".to_string(), id: b'c') } }
}
fn p1157() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { L1(r#"q"#, id: *&a) L1(1, id: -1) } }
}
fn p1158() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(m::f(1, 2), id: a as u8) C0 { ..s(2).into_iter().rev() L1([1, 2], id: (1, "t")) } }
}
fn p1159() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() L1(s(2).len(), id: &a) } }
}
fn p1160() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { ..s(2).into_iter().rev() L1(i32::MAX, id: tick()) } }
}
fn p1161() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(r#"q"#, id: *&a) C0 { C0 {  } L1(a, id: a + 2 * 3) } }
}
fn p1162() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { C0 {  } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) } }
}
fn p1163() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { C0 {  } L1(i32::MAX, id: tick()) } }
}
fn p1164() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(r#"q"#, id: *&a) C0 { L1(1, id: -1) ..s(2).into_iter().rev() } }
}
fn p1165() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { L1(m::f(1, 2), id: a as u8) ..s(2).into_iter().rev() } }
}
fn p1166() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { L1(s(2).len(), id: &a) ..s(2).into_iter().rev() } }
}
fn p1167() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1("x".to_string(), id: b'c') C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() } }
}
fn p1168() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() } }
}
fn p1169() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() } }
}
fn p1170() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(a, id: a + 2 * 3) C0 { C0 {  } ..s(2).into_iter().rev() } }
}
fn p1171() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { C0 {  } ..s(2).into_iter().rev() } }
}
fn p1172() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { C0 {  } ..s(2).into_iter().rev() } }
}
fn p1173() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x, id: <i32>::MIN) C0 { L1(r#"q"#, id: *&a) C0 {  } } }
}
fn p1174() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { L1(m::f(1, 2), id: a as u8) C0 {  } } }
}
fn p1175() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { L1((|v: i32| v + 1)(a), id: a < 9) C0 {  } } }
}
fn p1176() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1(P { x: a }.x, id: <i32>::MIN) C0 { ..s(2).into_iter().rev() C0 {  } } }
}
fn p1177() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() C0 {  } } }
}
fn p1178() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { ..s(2).into_iter().rev() C0 {  } } }
}
fn p1179() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a), id: a < 9) C0 { C0 {  } C0 {  } } }
}
fn p1180() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { C0 {  } C0 {  } } }
}
fn p1181() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { C0 {  } C0 {  } } }
}
fn p1182() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a), id: a < 9) C0 { C0 { L1("x".to_string(), id: b'c') } } }
}
fn p1183() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { C0 { L1(r#"q"#, id: *&a) } } }
}
fn p1184() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { C0 { L1([1, 2], id: (1, "t")) } } }
}
fn p1185() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1((|v: i32| v + 1)(a), id: a < 9) C0 { C0 { ..s(2).into_iter().rev() } } }
}
fn p1186() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { C0 { ..s(2).into_iter().rev() } } }
}
fn p1187() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { C0 { ..s(2).into_iter().rev() } } }
}
fn p1188() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L1([1, 2], id: (1, "t")) C0 { C0 { C0 {  } } } }
}
fn p1189() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2).into_iter().rev() C0 { C0 { C0 {  } } } }
}
fn p1190() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 {  } C0 { C0 { C0 {  } } } }
}
fn p1191() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1([1, 2], id: (1, "t")) } L1(s(2).len(), id: &a) L1((|v: i32| v + 1)(a), id: a < 9) }
}
fn p1192() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() } L1(i32::MAX, id: tick()) L1(P { x: a }.x, id: <i32>::MIN) }
}
fn p1193() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } L1(a, id: a + 2 * 3) L1(m::f(1, 2), id: a as u8) }
}
fn p1194() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1([1, 2], id: (1, "t")) } ..s(2).into_iter().rev() L1(s(2).len(), id: &a) }
}
fn p1195() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() } ..s(2).into_iter().rev() L1("x".to_string(), id: b'c') }
}
fn p1196() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } ..s(2).into_iter().rev() L1(r#"q"#, id: *&a) }
}
fn p1197() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(1, id: -1) } C0 {  } L1([1, 2], id: (1, "t")) }
}
fn p1198() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() } C0 {  } L1((|v: i32| v + 1)(a), id: a < 9) }
}
fn p1199() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } C0 {  } L1(r#"q"#, id: *&a) }
}
fn p1200() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(1, id: -1) } L1(m::f(1, 2), id: a as u8) ..s(2).into_iter().rev() }
}
fn p1201() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) ..s(2).into_iter().rev() }
}
fn p1202() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } L1("x".to_string(), id: b'c') ..s(2).into_iter().rev() }
}
fn p1203() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(i32::MAX, id: tick()) } ..s(2).into_iter().rev() ..s(2).into_iter().rev() }
}
fn p1204() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() } ..s(2).into_iter().rev() ..s(2).into_iter().rev() }
}
fn p1205() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } ..s(2).into_iter().rev() ..s(2).into_iter().rev() }
}
fn p1206() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(m::f(1, 2), id: a as u8) } C0 {  } ..s(2).into_iter().rev() }
}
fn p1207() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() } C0 {  } ..s(2).into_iter().rev() }
}
fn p1208() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } C0 {  } ..s(2).into_iter().rev() }
}
fn p1209() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(r#"q"#, id: *&a) } L1(a, id: a + 2 * 3) C0 {  } }
}
fn p1210() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) C0 {  } }
}
fn p1211() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } L1(i32::MAX, id: tick()) C0 {  } }
}
fn p1212() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(r#"q"#, id: *&a) } ..s(2).into_iter().rev() C0 {  } }
}
fn p1213() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() } ..s(2).into_iter().rev() C0 {  } }
}
fn p1214() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } ..s(2).into_iter().rev() C0 {  } }
}
fn p1215() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1("x".to_string(), id: b'c') } C0 {  } C0 {  } }
}
fn p1216() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() } C0 {  } C0 {  } }
}
fn p1217() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } C0 {  } C0 {  } }
}
fn p1218() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1("x".to_string(), id: b'c') } C0 { L1(P { x: a }.x, id: <i32>::MIN) } }
}
fn p1219() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() } C0 { L1(a, id: a + 2 * 3) } }
}
fn p1220() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } C0 { L1(s(2).len(), id: &a) } }
}
fn p1221() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1("x".to_string(), id: b'c') } C0 { ..s(2).into_iter().rev() } }
}
fn p1222() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() } C0 { ..s(2).into_iter().rev() } }
}
fn p1223() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } C0 { ..s(2).into_iter().rev() } }
}
fn p1224() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) } C0 { C0 {  } } }
}
fn p1225() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() } C0 { C0 {  } } }
}
fn p1226() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } } C0 { C0 {  } } }
}
fn p1227() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L1(s(2).len(), id: &a) } L1("x".to_string(), id: b'c') }
}
fn p1228() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() L1(i32::MAX, id: tick()) } L1(r#"q"#, id: *&a) }
}
fn p1229() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } L1(a, id: a + 2 * 3) } L1([1, 2], id: (1, "t")) }
}
fn p1230() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) ..s(2).into_iter().rev() } L1((|v: i32| v + 1)(a), id: a < 9) }
}
fn p1231() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() } L1(i32::MAX, id: tick()) }
}
fn p1232() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } ..s(2).into_iter().rev() } L1(1, id: -1) }
}
fn p1233() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(a, id: a + 2 * 3) C0 {  } } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }
}
fn p1234() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() C0 {  } } L1("x".to_string(), id: b'c') }
}
fn p1235() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } C0 {  } } L1(1, id: -1) }
}
fn p1236() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L1(a, id: a + 2 * 3) } } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }
}
fn p1237() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { ..s(2).into_iter().rev() } } L1("x".to_string(), id: b'c') }
}
fn p1238() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { C0 {  } } } L1(1, id: -1) }
}
fn p1239() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(a, id: a + 2 * 3) L1(m::f(1, 2), id: a as u8) } ..s(2).into_iter().rev() }
}
fn p1240() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) } ..s(2).into_iter().rev() }
}
fn p1241() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } L1("x".to_string(), id: b'c') } ..s(2).into_iter().rev() }
}
fn p1242() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(P { x: a }.x, id: <i32>::MIN) ..s(2).into_iter().rev() } ..s(2).into_iter().rev() }
}
fn p1243() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() } ..s(2).into_iter().rev() }
}
fn p1244() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } ..s(2).into_iter().rev() } ..s(2).into_iter().rev() }
}
fn p1245() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1([1, 2], id: (1, "t")) C0 {  } } ..s(2).into_iter().rev() }
}
fn p1246() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() C0 {  } } ..s(2).into_iter().rev() }
}
fn p1247() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } C0 {  } } ..s(2).into_iter().rev() }
}
fn p1248() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L1(1, id: -1) } } ..s(2).into_iter().rev() }
}
fn p1249() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { ..s(2).into_iter().rev() } } ..s(2).into_iter().rev() }
}
fn p1250() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { C0 {  } } } ..s(2).into_iter().rev() }
}
fn p1251() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(i32::MAX, id: tick()) L1(P { x: a }.x, id: <i32>::MIN) } C0 {  } }
}
fn p1252() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() L1(a, id: a + 2 * 3) } C0 {  } }
}
fn p1253() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } L1(s(2).len(), id: &a) } C0 {  } }
}
fn p1254() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(i32::MAX, id: tick()) ..s(2).into_iter().rev() } C0 {  } }
}
fn p1255() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() } C0 {  } }
}
fn p1256() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } ..s(2).into_iter().rev() } C0 {  } }
}
fn p1257() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(s(2).len(), id: &a) C0 {  } } C0 {  } }
}
fn p1258() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() C0 {  } } C0 {  } }
}
fn p1259() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } C0 {  } } C0 {  } }
}
fn p1260() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L1(s(2).len(), id: &a) } } C0 {  } }
}
fn p1261() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { ..s(2).into_iter().rev() } } C0 {  } }
}
fn p1262() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { C0 {  } } } C0 {  } }
}
fn p1263() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(s(2).len(), id: &a) L1((|v: i32| v + 1)(a), id: a < 9) L1("x".to_string(), id: b'c') } }
}
fn p1264() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() L1(P { x: a }.x, id: <i32>::MIN) L1(r#"q"#, id: *&a) } }
}
fn p1265() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } L1(m::f(1, 2), id: a as u8) L1([1, 2], id: (1, "t")) } }
}
fn p1266() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(s(2).len(), id: &a) ..s(2).into_iter().rev() L1((|v: i32| v + 1)(a), id: a < 9) } }
}
fn p1267() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() L1(i32::MAX, id: tick()) } }
}
fn p1268() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } ..s(2).into_iter().rev() L1(1, id: -1) } }
}
fn p1269() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(m::f(1, 2), id: a as u8) C0 {  } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) } }
}
fn p1270() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() C0 {  } L1("x".to_string(), id: b'c') } }
}
fn p1271() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } C0 {  } L1(1, id: -1) } }
}
fn p1272() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(m::f(1, 2), id: a as u8) L1([1, 2], id: (1, "t")) ..s(2).into_iter().rev() } }
}
fn p1273() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() L1(s(2).len(), id: &a) ..s(2).into_iter().rev() } }
}
fn p1274() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } L1(i32::MAX, id: tick()) ..s(2).into_iter().rev() } }
}
fn p1275() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(r#"q"#, id: *&a) ..s(2).into_iter().rev() ..s(2).into_iter().rev() } }
}
fn p1276() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() ..s(2).into_iter().rev() } }
}
fn p1277() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } ..s(2).into_iter().rev() ..s(2).into_iter().rev() } }
}
fn p1278() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) C0 {  } ..s(2).into_iter().rev() } }
}
fn p1279() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() C0 {  } ..s(2).into_iter().rev() } }
}
fn p1280() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } C0 {  } ..s(2).into_iter().rev() } }
}
fn p1281() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(a, id: a + 2 * 3) L1(m::f(1, 2), id: a as u8) C0 {  } } }
}
fn p1282() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() L1(s(2).len(), id: &a) C0 {  } } }
}
fn p1283() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } L1(P { x: a }.x, id: <i32>::MIN) C0 {  } } }
}
fn p1284() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(a, id: a + 2 * 3) ..s(2).into_iter().rev() C0 {  } } }
}
fn p1285() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 {  } } }
}
fn p1286() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } ..s(2).into_iter().rev() C0 {  } } }
}
fn p1287() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(P { x: a }.x, id: <i32>::MIN) C0 {  } C0 {  } } }
}
fn p1288() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() C0 {  } C0 {  } } }
}
fn p1289() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } C0 {  } C0 {  } } }
}
fn p1290() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(P { x: a }.x, id: <i32>::MIN) C0 { L1(r#"q"#, id: *&a) } } }
}
fn p1291() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() C0 { L1(m::f(1, 2), id: a as u8) } } }
}
fn p1292() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } C0 { L1((|v: i32| v + 1)(a), id: a < 9) } } }
}
fn p1293() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1(P { x: a }.x, id: <i32>::MIN) C0 { ..s(2).into_iter().rev() } } }
}
fn p1294() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() } } }
}
fn p1295() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } C0 { ..s(2).into_iter().rev() } } }
}
fn p1296() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L1((|v: i32| v + 1)(a), id: a < 9) C0 { C0 {  } } } }
}
fn p1297() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { ..s(2).into_iter().rev() C0 { C0 {  } } } }
}
fn p1298() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 {  } C0 { C0 {  } } } }
}
fn p1299() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L1((|v: i32| v + 1)(a), id: a < 9) } L1(i32::MAX, id: tick()) } }
}
fn p1300() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { ..s(2).into_iter().rev() } L1(1, id: -1) } }
}
fn p1301() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { C0 {  } } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) } }
}
fn p1302() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L1((|v: i32| v + 1)(a), id: a < 9) } ..s(2).into_iter().rev() } }
}
fn p1303() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { ..s(2).into_iter().rev() } ..s(2).into_iter().rev() } }
}
fn p1304() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { C0 {  } } ..s(2).into_iter().rev() } }
}
fn p1305() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L1([1, 2], id: (1, "t")) } C0 {  } } }
}
fn p1306() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { ..s(2).into_iter().rev() } C0 {  } } }
}
fn p1307() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { C0 {  } } C0 {  } } }
}
fn p1308() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L1([1, 2], id: (1, "t")) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) } } }
}
fn p1309() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { ..s(2).into_iter().rev() L1("x".to_string(), id: b'c') } } }
}
fn p1310() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { C0 {  } L1(1, id: -1) } } }
}
fn p1311() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L1([1, 2], id: (1, "t")) ..s(2).into_iter().rev() } } }
}
fn p1312() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() } } }
}
fn p1313() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { C0 {  } ..s(2).into_iter().rev() } } }
}
fn p1314() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L1(1, id: -1) C0 {  } } } }
}
fn p1315() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { ..s(2).into_iter().rev() C0 {  } } } }
}
fn p1316() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { C0 {  } C0 {  } } } }
}
fn p1317() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { C0 { L1(1, id: -1) } } } }
}
fn p1318() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { C0 { ..s(2).into_iter().rev() } } } }
}
fn p1319() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { C0 { C0 {  } } } } }
}
fn p1320() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { L0 }) }
}
fn p1321() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { L0() }) }
}
fn p1322() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { L1(m::f(1, 2)) }) }
}
fn p1323() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { L1([1, 2], id: (1, "t")) }) }
}
fn p1324() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }) }
}
fn p1325() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { L2(s(2).len(), &a, n: !true,) }) }
}
fn p1326() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { F1(|v: i32| v + 1, n: (|v: i32| v + 1)(a)) }) }
}
fn p1327() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 {  } }) }
}
fn p1328() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0(id: i32::MAX) {  } }) }
}
fn p1329() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C1(P { x: a }.x) {  } }) }
}
fn p1330() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } }) }
}
fn p1331() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(1) } }) }
}
fn p1332() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { ..s(2) } }) }
}
fn p1333() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..Some(widget! { C0 { ..v } }) }
}
fn p1334() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C0 {  } } }) }
}
fn p1335() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C0(id: (|v: i32| v + 1)(a)) {  } } }) }
}
fn p1336() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C1(i32::MAX) {  } } }) }
}
fn p1337() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } } }) }
}
fn p1338() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0(id: m::f(1, 2)) { L1(a) } }) }
}
fn p1339() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0(id: [1, 2]) { ..s(2) } }) }
}
fn p1340() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..Some(widget! { C0(id: if a > 3 { 1 } else { 2 }) { ..v } }) }
}
fn p1341() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0(id: (|v: i32| v + 1)(a)) { C0 {  } } }) }
}
fn p1342() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0(id: i32::MAX) { C0(id: "x".to_string()) {  } } }) }
}
fn p1343() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0(id: r#"q"#) { C1(P { x: a }.x) {  } } }) }
}
fn p1344() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0(id: a) { C2(1, -1, n: "a: b", id: 1) {  } } }) }
}
fn p1345() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C1([1, 2]) { L1(m::f(1, 2)) } }) }
}
fn p1346() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C1(if a > 3 { 1 } else { 2 }) { ..s(2) } }) }
}
fn p1347() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..Some(widget! { C1(s(2).len()) { ..v } }) }
}
fn p1348() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C1("x".to_string()) { C0 {  } } }) }
}
fn p1349() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C1(P { x: a }.x) { C0(id: i32::MAX) {  } } }) }
}
fn p1350() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C1(1) { C1(r#"q"#) {  } } }) }
}
fn p1351() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C1(m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) {  } } }) }
}
fn p1352() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { L1([1, 2]) } }) }
}
fn p1353() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(s(2).len(), &a, n: !true, id: s(2).len()) { ..s(2) } }) }
}
fn p1354() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    let v: Vec<Box<dyn Widget<Msg>>> = vec![Box::new(Rec::of("V", vec![]))];
    ui! { ..Some(widget! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { ..v } }) }
}
fn p1355() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C0 {  } } }) }
}
fn p1356() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C0(id: P { x: a }.x) {  } } }) }
}
fn p1357() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(a, a + 2 * 3, n: m::X, id: a) { C1(1) {  } } }) }
}
fn p1358() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) {  } } }) }
}
fn p1359() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(if a > 3 { 1 } else { 2 }) L1(s(2).len()) } }) }
}
fn p1360() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { ..s(2) L1("x".to_string()) } }) }
}
fn p1361() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C0 {  } L1(r#"q"#) } }) }
}
fn p1362() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C2(a, a + 2 * 3, n: m::X, id: a) {  } L1(m::f(1, 2)) } }) }
}
fn p1363() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(if a > 3 { 1 } else { 2 }) ..s(2) } }) }
}
fn p1364() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { ..s(2) ..s(2) } }) }
}
fn p1365() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C0 {  } ..s(2) } }) }
}
fn p1366() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } ..s(2) } }) }
}
fn p1367() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(1) C0 {  } } }) }
}
fn p1368() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { ..s(2) C0 {  } } }) }
}
fn p1369() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C0 {  } C0 {  } } }) }
}
fn p1370() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } C0 {  } } }) }
}
fn p1371() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { L1(1) C2(a, a + 2 * 3, n: m::X, id: a) {  } } }) }
}
fn p1372() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { ..s(2) C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) {  } } }) }
}
fn p1373() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C0 {  } C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } } }) }
}
fn p1374() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } } }) }
}
fn p1375() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C0 { L1(1) } } }) }
}
fn p1376() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C0 { ..s(2) } } }) }
}
fn p1377() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C0 { C0 {  } } } }) }
}
fn p1378() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C0 { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } } } }) }
}
fn p1379() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C2(a, a + 2 * 3, n: m::X, id: a) { L1(1) } } }) }
}
fn p1380() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { ..s(2) } } }) }
}
fn p1381() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C0 {  } } } }) }
}
fn p1382() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C0 { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } } } }) }
}
fn p1383() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { L1(1) L1(a) } }) }
}
fn p1384() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { ..s(2) L1([1, 2]) } }) }
}
fn p1385() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { C0 {  } L1((|v: i32| v + 1)(a)) } }) }
}
fn p1386() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } L1(P { x: a }.x) } }) }
}
fn p1387() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(a, a + 2 * 3, n: m::X, id: a) { L1(1) ..s(2) } }) }
}
fn p1388() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { ..s(2) ..s(2) } }) }
}
fn p1389() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { C0 {  } ..s(2) } }) }
}
fn p1390() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } ..s(2) } }) }
}
fn p1391() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L1("x".to_string()) C0 {  } } }) }
}
fn p1392() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(1, -1, n: "a: b", id: 1) { ..s(2) C0 {  } } }) }
}
fn p1393() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { C0 {  } C0 {  } } }) }
}
fn p1394() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } C0 {  } } }) }
}
fn p1395() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L1("x".to_string()) C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } } }) }
}
fn p1396() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(1, -1, n: "a: b", id: 1) { ..s(2) C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) {  } } }) }
}
fn p1397() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { C0 {  } C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) {  } } }) }
}
fn p1398() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } } }) }
}
fn p1399() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { C0 { L1("x".to_string()) } } }) }
}
fn p1400() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(1, -1, n: "a: b", id: 1) { C0 { ..s(2) } } }) }
}
fn p1401() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { C0 { C0 {  } } } }) }
}
fn p1402() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C0 { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } } } }) }
}
fn p1403() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L1("x".to_string()) } } }) }
}
fn p1404() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2(1, -1, n: "a: b", id: 1) { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { ..s(2) } } }) }
}
fn p1405() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C0 {  } } } }) }
}
fn p1406() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..Some(widget! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) {  } } } }) }
}
fn p1407() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(n: 1, n: 2) }
}
fn p1408() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(3, id: 1, n: 1, id: 2) { L1(1) } }
}
fn p1409() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(1, 1, classes: 1, n: 1, id: 1) }
}
fn p1410() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(n: 1, n: 2,) }
}
fn p1411() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(3, id: 1, n: 1, id: 2,) { L1(1,) } }
}
fn p1412() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(1, 1, classes: 1, n: 1, id: 1,) }
}
fn p1413() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(n: -1, n: 2) }
}
fn p1414() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(3, id: -1, n: 1, id: 2) { L1(-1) } }
}
fn p1415() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(-1, -1, classes: -1, n: -1, id: -1) }
}
fn p1416() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(n: -1, n: 2,) }
}
fn p1417() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(3, id: -1, n: 1, id: 2,) { L1(-1,) } }
}
fn p1418() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(-1, -1, classes: -1, n: -1, id: -1,) }
}
fn p1419() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(n: "a: b", n: 2) }
}
fn p1420() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(3, id: "a: b", n: 1, id: 2) { L1("a: b") } }
}
fn p1421() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2("a: b", "a: b", classes: "a: b", n: "a: b", id: "a: b") }
}
fn p1422() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(n: "a: b", n: 2,) }
}
fn p1423() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(3, id: "a: b", n: 1, id: 2,) { L1("a: b",) } }
}
fn p1424() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2("a: b", "a: b", classes: "a: b", n: "a: b", id: "a: b",) }
}
fn p1425() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(n: a, n: 2) }
}
fn p1426() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(3, id: a, n: 1, id: 2) { L1(a) } }
}
fn p1427() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(a, a, classes: a, n: a, id: a) }
}
fn p1428() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(n: a, n: 2,) }
}
fn p1429() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(3, id: a, n: 1, id: 2,) { L1(a,) } }
}
fn p1430() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(a, a, classes: a, n: a, id: a,) }
}
fn p1431() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(n: a + 2 * 3, n: 2) }
}
fn p1432() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(3, id: a + 2 * 3, n: 1, id: 2) { L1(a + 2 * 3) } }
}
fn p1433() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(a + 2 * 3, a + 2 * 3, classes: a + 2 * 3, n: a + 2 * 3, id: a + 2 * 3) }
}
fn p1434() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(n: a + 2 * 3, n: 2,) }
}
fn p1435() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(3, id: a + 2 * 3, n: 1, id: 2,) { L1(a + 2 * 3,) } }
}
fn p1436() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(a + 2 * 3, a + 2 * 3, classes: a + 2 * 3, n: a + 2 * 3, id: a + 2 * 3,) }
}
fn p1437() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(n: m::X, n: 2) }
}
fn p1438() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(3, id: m::X, n: 1, id: 2) { L1(m::X) } }
}
fn p1439() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(m::X, m::X, classes: m::X, n: m::X, id: m::X) }
}
fn p1440() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(n: m::X, n: 2,) }
}
fn p1441() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(3, id: m::X, n: 1, id: 2,) { L1(m::X,) } }
}
fn p1442() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(m::X, m::X, classes: m::X, n: m::X, id: m::X,) }
}
fn p1443() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(n: m::f(1, 2), n: 2) }
}
fn p1444() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(3, id: m::f(1, 2), n: 1, id: 2) { L1(m::f(1, 2)) } }
}
fn p1445() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(m::f(1, 2), m::f(1, 2), classes: m::f(1, 2), n: m::f(1, 2), id: m::f(1, 2)) }
}
fn p1446() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(n: m::f(1, 2), n: 2,) }
}
fn p1447() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(3, id: m::f(1, 2), n: 1, id: 2,) { L1(m::f(1, 2),) } }
}
fn p1448() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(m::f(1, 2), m::f(1, 2), classes: m::f(1, 2), n: m::f(1, 2), id: m::f(1, 2),) }
}
fn p1449() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(n: a as u8, n: 2) }
}
fn p1450() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(3, id: a as u8, n: 1, id: 2) { L1(a as u8) } }
}
fn p1451() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(a as u8, a as u8, classes: a as u8, n: a as u8, id: a as u8) }
}
fn p1452() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0(n: a as u8, n: 2,) }
}
fn p1453() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(3, id: a as u8, n: 1, id: 2,) { L1(a as u8,) } }
}
fn p1454() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L2(a as u8, a as u8, classes: a as u8, n: a as u8, id: a as u8,) }
}
fn p1455() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 L1("x".to_string()) } }
}
fn p1456() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: a) { L0 L1(r#"q"#) } }
}
fn p1457() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(if a > 3 { 1 } else { 2 }) { L0 L1(m::f(1, 2)) } }
}
fn p1458() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L0 L1(s(2).len()) } }
}
fn p1459() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 ..s(2).into_iter().rev() } }
}
fn p1460() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: 1) { L0 ..s(2).into_iter().rev() } }
}
fn p1461() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(m::f(1, 2)) { L0 ..s(2).into_iter().rev() } }
}
fn p1462() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { L0 ..s(2).into_iter().rev() } }
}
fn p1463() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L0 L1(s(2).len()) } } }
}
fn p1464() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: a) { C0(id: 1) { L0 L1(P { x: a }.x) } } }
}
fn p1465() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(s(2).len()) { C1(if a > 3 { 1 } else { 2 }) { L0 L1(m::f(1, 2)) } } }
}
fn p1466() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L0 L1((|v: i32| v + 1)(a)) } } }
}
fn p1467() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L0 ..s(2).into_iter().rev() } } }
}
fn p1468() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: if a > 3 { 1 } else { 2 }) { C0(id: [1, 2]) { L0 ..s(2).into_iter().rev() } } }
}
fn p1469() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1("x".to_string()) { C1((|v: i32| v + 1)(a)) { L0 ..s(2).into_iter().rev() } } }
}
fn p1470() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 ..s(2).into_iter().rev() } } }
}
fn p1471() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 C0 { C0 { L0 L1(1) } } } }
}
fn p1472() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: 1) { L0 C0(id: P { x: a }.x) { C0(id: i32::MAX) { L0 L1((|v: i32| v + 1)(a)) } } } }
}
fn p1473() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1((|v: i32| v + 1)(a)) { L0 C1(if a > 3 { 1 } else { 2 }) { C1([1, 2]) { L0 L1(a) } } } }
}
fn p1474() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a, a + 2 * 3, n: m::X, id: a) { L0 C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 L1("x".to_string()) } } } }
}
fn p1475() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } }
}
fn p1476() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: 1) { L0 C0(id: P { x: a }.x) { C0(id: i32::MAX) { L0 ..s(2).into_iter().rev() } } } }
}
fn p1477() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(s(2).len()) { L0 C1([1, 2]) { C1(m::f(1, 2)) { L0 ..s(2).into_iter().rev() } } } }
}
fn p1478() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { L0 C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L0 ..s(2).into_iter().rev() } } } }
}
fn p1479() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L0 C0 { C0 { L0 L1(1) } } } } }
}
fn p1480() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: m::f(1, 2)) { C0(id: a) { L0 C0(id: r#"q"#) { C0(id: P { x: a }.x) { L0 L1("x".to_string()) } } } } }
}
fn p1481() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(P { x: a }.x) { C1(i32::MAX) { L0 C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 L1([1, 2]) } } } } }
}
fn p1482() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { L0 C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) { L0 L1(r#"q"#) } } } } }
}
fn p1483() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } }
}
fn p1484() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: (|v: i32| v + 1)(a)) { C0(id: s(2).len()) { L0 C0(id: [1, 2]) { C0(id: m::f(1, 2)) { L0 ..s(2).into_iter().rev() } } } } }
}
fn p1485() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(a) { C1(1) { L0 C1(P { x: a }.x) { C1(i32::MAX) { L0 ..s(2).into_iter().rev() } } } } }
}
fn p1486() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { L0 ..s(2).into_iter().rev() } } } } }
}
fn p1487() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 L1(i32::MAX) } } } } } }
}
fn p1488() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: [1, 2]) { L0 C0(id: a) { C0(id: 1) { L0 C0(id: P { x: a }.x) { C0(id: i32::MAX) { L0 L1((|v: i32| v + 1)(a)) } } } } } }
}
fn p1489() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(a) { L0 C1(r#"q"#) { C1(P { x: a }.x) { L0 C1("x".to_string()) { C1((|v: i32| v + 1)(a)) { L0 L1(if a > 3 { 1 } else { 2 }) } } } } } }
}
fn p1490() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { L0 C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L0 C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { L0 L1(m::f(1, 2)) } } } } } }
}
fn p1491() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } } }
}
fn p1492() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: if a > 3 { 1 } else { 2 }) { L0 C0(id: m::f(1, 2)) { C0(id: a) { L0 C0(id: r#"q"#) { C0(id: P { x: a }.x) { L0 ..s(2).into_iter().rev() } } } } } }
}
fn p1493() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(a) { L0 C1(r#"q"#) { C1(P { x: a }.x) { L0 C1("x".to_string()) { C1((|v: i32| v + 1)(a)) { L0 ..s(2).into_iter().rev() } } } } } }
}
fn p1494() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { L0 ..s(2).into_iter().rev() } } } } } }
}
fn p1495() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 L1(r#"q"#) } } } } } } }
}
fn p1496() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: "x".to_string()) { C0(id: (|v: i32| v + 1)(a)) { L0 C0(id: if a > 3 { 1 } else { 2 }) { C0(id: [1, 2]) { L0 C0(id: a) { C0(id: 1) { L0 L1(P { x: a }.x) } } } } } } }
}
fn p1497() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 C1([1, 2]) { C1(m::f(1, 2)) { L0 C1(1) { C1(r#"q"#) { L0 L1(i32::MAX) } } } } } } }
}
fn p1498() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { L0 C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) { L0 C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 L1("x".to_string()) } } } } } } }
}
fn p1499() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } } } }
}
fn p1500() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: a) { C0(id: 1) { L0 C0(id: P { x: a }.x) { C0(id: i32::MAX) { L0 C0(id: (|v: i32| v + 1)(a)) { C0(id: s(2).len()) { L0 ..s(2).into_iter().rev() } } } } } } }
}
fn p1501() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(r#"q"#) { C1(P { x: a }.x) { L0 C1("x".to_string()) { C1((|v: i32| v + 1)(a)) { L0 C1(if a > 3 { 1 } else { 2 }) { C1([1, 2]) { L0 ..s(2).into_iter().rev() } } } } } } }
}
fn p1502() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L0 C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { L0 C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) { L0 ..s(2).into_iter().rev() } } } } } } }
}
fn p1503() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 L1(P { x: a }.x) } } } } } } } }
}
fn p1504() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: r#"q"#) { L0 C0(id: i32::MAX) { C0(id: "x".to_string()) { L0 C0(id: s(2).len()) { C0(id: if a > 3 { 1 } else { 2 }) { L0 C0(id: m::f(1, 2)) { C0(id: a) { L0 L1(r#"q"#) } } } } } } } }
}
fn p1505() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(1) { L0 C1(P { x: a }.x) { C1(i32::MAX) { L0 C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 C1([1, 2]) { C1(m::f(1, 2)) { L0 L1(1) } } } } } } } }
}
fn p1506() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a, a + 2 * 3, n: m::X, id: a) { L0 C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { L0 L1(a) } } } } } } } }
}
fn p1507() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } } } } }
}
fn p1508() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: a) { L0 C0(id: r#"q"#) { C0(id: P { x: a }.x) { L0 C0(id: "x".to_string()) { C0(id: (|v: i32| v + 1)(a)) { L0 C0(id: if a > 3 { 1 } else { 2 }) { C0(id: [1, 2]) { L0 ..s(2).into_iter().rev() } } } } } } } }
}
fn p1509() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(a) { L0 C1(r#"q"#) { C1(P { x: a }.x) { L0 C1("x".to_string()) { C1((|v: i32| v + 1)(a)) { L0 C1(if a > 3 { 1 } else { 2 }) { C1([1, 2]) { L0 ..s(2).into_iter().rev() } } } } } } } }
}
fn p1510() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(a, a + 2 * 3, n: m::X, id: a) { L0 C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { L0 ..s(2).into_iter().rev() } } } } } } } }
}
fn p1511() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 L1(m::f(1, 2)) } } } } } } } } }
}
fn p1512() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: s(2).len()) { C0(id: if a > 3 { 1 } else { 2 }) { L0 C0(id: m::f(1, 2)) { C0(id: a) { L0 C0(id: r#"q"#) { C0(id: P { x: a }.x) { L0 C0(id: "x".to_string()) { C0(id: (|v: i32| v + 1)(a)) { L0 L1(if a > 3 { 1 } else { 2 }) } } } } } } } } }
}
fn p1513() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1("x".to_string()) { C1((|v: i32| v + 1)(a)) { L0 C1(if a > 3 { 1 } else { 2 }) { C1([1, 2]) { L0 C1(a) { C1(1) { L0 C1(P { x: a }.x) { C1(i32::MAX) { L0 L1((|v: i32| v + 1)(a)) } } } } } } } } }
}
fn p1514() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L0 C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { L0 C2(1, -1, n: "a: b", id: 1) { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { L0 L1(i32::MAX) } } } } } } } } }
}
fn p1515() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } } } } } }
}
fn p1516() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: 1) { C0(id: r#"q"#) { L0 C0(id: i32::MAX) { C0(id: "x".to_string()) { L0 C0(id: s(2).len()) { C0(id: if a > 3 { 1 } else { 2 }) { L0 C0(id: m::f(1, 2)) { C0(id: a) { L0 ..s(2).into_iter().rev() } } } } } } } } }
}
fn p1517() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(a) { C1(1) { L0 C1(P { x: a }.x) { C1(i32::MAX) { L0 C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 C1([1, 2]) { C1(m::f(1, 2)) { L0 ..s(2).into_iter().rev() } } } } } } } } }
}
fn p1518() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) { L0 C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { L0 ..s(2).into_iter().rev() } } } } } } } } }
}
fn p1519() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 L1([1, 2]) } } } } } } } } } }
}
fn p1520() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: r#"q"#) { L0 C0(id: i32::MAX) { C0(id: "x".to_string()) { L0 C0(id: s(2).len()) { C0(id: if a > 3 { 1 } else { 2 }) { L0 C0(id: m::f(1, 2)) { C0(id: a) { L0 C0(id: r#"q"#) { C0(id: P { x: a }.x) { L0 L1("x".to_string()) } } } } } } } } } }
}
fn p1521() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1([1, 2]) { L0 C1(a) { C1(1) { L0 C1(P { x: a }.x) { C1(i32::MAX) { L0 C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 C1([1, 2]) { C1(m::f(1, 2)) { L0 L1(1) } } } } } } } } } }
}
fn p1522() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L0 C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { L0 C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) { L0 C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 L1(if a > 3 { 1 } else { 2 }) } } } } } } } } } }
}
fn p1523() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } } } } } } }
}
fn p1524() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: m::f(1, 2)) { L0 C0(id: 1) { C0(id: r#"q"#) { L0 C0(id: i32::MAX) { C0(id: "x".to_string()) { L0 C0(id: s(2).len()) { C0(id: if a > 3 { 1 } else { 2 }) { L0 C0(id: m::f(1, 2)) { C0(id: a) { L0 ..s(2).into_iter().rev() } } } } } } } } } }
}
fn p1525() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(s(2).len()) { L0 C1([1, 2]) { C1(m::f(1, 2)) { L0 C1(1) { C1(r#"q"#) { L0 C1(i32::MAX) { C1("x".to_string()) { L0 C1(s(2).len()) { C1(if a > 3 { 1 } else { 2 }) { L0 ..s(2).into_iter().rev() } } } } } } } } } }
}
fn p1526() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L0 C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { L0 C2(1, -1, n: "a: b", id: 1) { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { L0 C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L0 ..s(2).into_iter().rev() } } } } } } } } } }
}
fn p1527() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 L1(P { x: a }.x) } } } } } } } } } } }
}
fn p1528() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: "x".to_string()) { C0(id: (|v: i32| v + 1)(a)) { L0 C0(id: if a > 3 { 1 } else { 2 }) { C0(id: [1, 2]) { L0 C0(id: a) { C0(id: 1) { L0 C0(id: P { x: a }.x) { C0(id: i32::MAX) { L0 C0(id: (|v: i32| v + 1)(a)) { C0(id: s(2).len()) { L0 L1([1, 2]) } } } } } } } } } } }
}
fn p1529() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(a) { C1(1) { L0 C1(P { x: a }.x) { C1(i32::MAX) { L0 C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 C1([1, 2]) { C1(m::f(1, 2)) { L0 C1(1) { C1(r#"q"#) { L0 L1(i32::MAX) } } } } } } } } } } }
}
fn p1530() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { L0 C2(1, -1, n: "a: b", id: 1) { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { L0 C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L0 C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { L0 L1(m::f(1, 2)) } } } } } } } } } } }
}
fn p1531() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } } } } } } } }
}
fn p1532() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: [1, 2]) { C0(id: m::f(1, 2)) { L0 C0(id: 1) { C0(id: r#"q"#) { L0 C0(id: i32::MAX) { C0(id: "x".to_string()) { L0 C0(id: s(2).len()) { C0(id: if a > 3 { 1 } else { 2 }) { L0 C0(id: m::f(1, 2)) { C0(id: a) { L0 ..s(2).into_iter().rev() } } } } } } } } } } }
}
fn p1533() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1("x".to_string()) { C1((|v: i32| v + 1)(a)) { L0 C1(if a > 3 { 1 } else { 2 }) { C1([1, 2]) { L0 C1(a) { C1(1) { L0 C1(P { x: a }.x) { C1(i32::MAX) { L0 C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 ..s(2).into_iter().rev() } } } } } } } } } } }
}
fn p1534() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(1, -1, n: "a: b", id: 1) { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { L0 C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L0 C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { L0 C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) { L0 C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 ..s(2).into_iter().rev() } } } } } } } } } } }
}
fn p1535() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 L1(a) } } } } } } } } } } } }
}
fn p1536() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: [1, 2]) { L0 C0(id: a) { C0(id: 1) { L0 C0(id: P { x: a }.x) { C0(id: i32::MAX) { L0 C0(id: (|v: i32| v + 1)(a)) { C0(id: s(2).len()) { L0 C0(id: [1, 2]) { C0(id: m::f(1, 2)) { L0 C0(id: 1) { C0(id: r#"q"#) { L0 L1(i32::MAX) } } } } } } } } } } } }
}
fn p1537() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(r#"q"#) { L0 C1(i32::MAX) { C1("x".to_string()) { L0 C1(s(2).len()) { C1(if a > 3 { 1 } else { 2 }) { L0 C1(m::f(1, 2)) { C1(a) { L0 C1(r#"q"#) { C1(P { x: a }.x) { L0 C1("x".to_string()) { C1((|v: i32| v + 1)(a)) { L0 L1(if a > 3 { 1 } else { 2 }) } } } } } } } } } } } }
}
fn p1538() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { L0 C2(a, a + 2 * 3, n: m::X, id: a) { C2(1, -1, n: "a: b", id: 1) { L0 C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L0 C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { L0 L1(1) } } } } } } } } } } } }
}
fn p1539() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } } } } } } } } }
}
fn p1540() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: "x".to_string()) { L0 C0(id: s(2).len()) { C0(id: if a > 3 { 1 } else { 2 }) { L0 C0(id: m::f(1, 2)) { C0(id: a) { L0 C0(id: r#"q"#) { C0(id: P { x: a }.x) { L0 C0(id: "x".to_string()) { C0(id: (|v: i32| v + 1)(a)) { L0 C0(id: if a > 3 { 1 } else { 2 }) { C0(id: [1, 2]) { L0 ..s(2).into_iter().rev() } } } } } } } } } } } }
}
fn p1541() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(m::f(1, 2)) { L0 C1(1) { C1(r#"q"#) { L0 C1(i32::MAX) { C1("x".to_string()) { L0 C1(s(2).len()) { C1(if a > 3 { 1 } else { 2 }) { L0 C1(m::f(1, 2)) { C1(a) { L0 C1(r#"q"#) { C1(P { x: a }.x) { L0 ..s(2).into_iter().rev() } } } } } } } } } } } }
}
fn p1542() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L0 C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { L0 C2(1, -1, n: "a: b", id: 1) { C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { L0 C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { L0 C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { L0 ..s(2).into_iter().rev() } } } } } } } } } } } }
}
fn p1543() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 L1(P { x: a }.x) } } } } } } } } } } } } }
}
fn p1544() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: m::f(1, 2)) { C0(id: a) { L0 C0(id: r#"q"#) { C0(id: P { x: a }.x) { L0 C0(id: "x".to_string()) { C0(id: (|v: i32| v + 1)(a)) { L0 C0(id: if a > 3 { 1 } else { 2 }) { C0(id: [1, 2]) { L0 C0(id: a) { C0(id: 1) { L0 C0(id: P { x: a }.x) { C0(id: i32::MAX) { L0 L1((|v: i32| v + 1)(a)) } } } } } } } } } } } } }
}
fn p1545() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1(r#"q"#) { C1(P { x: a }.x) { L0 C1("x".to_string()) { C1((|v: i32| v + 1)(a)) { L0 C1(if a > 3 { 1 } else { 2 }) { C1([1, 2]) { L0 C1(a) { C1(1) { L0 C1(P { x: a }.x) { C1(i32::MAX) { L0 C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 L1([1, 2]) } } } } } } } } } } } } }
}
fn p1546() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { L0 C2(a, a + 2 * 3, n: m::X, id: a) { C2(1, -1, n: "a: b", id: 1) { L0 C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L0 C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { L0 L1(1) } } } } } } } } } } } } }
}
fn p1547() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } } } } } } } } } }
}
fn p1548() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: r#"q"#) { C0(id: P { x: a }.x) { L0 C0(id: "x".to_string()) { C0(id: (|v: i32| v + 1)(a)) { L0 C0(id: if a > 3 { 1 } else { 2 }) { C0(id: [1, 2]) { L0 C0(id: a) { C0(id: 1) { L0 C0(id: P { x: a }.x) { C0(id: i32::MAX) { L0 C0(id: (|v: i32| v + 1)(a)) { C0(id: s(2).len()) { L0 ..s(2).into_iter().rev() } } } } } } } } } } } } }
}
fn p1549() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 C1([1, 2]) { C1(m::f(1, 2)) { L0 C1(1) { C1(r#"q"#) { L0 C1(i32::MAX) { C1("x".to_string()) { L0 C1(s(2).len()) { C1(if a > 3 { 1 } else { 2 }) { L0 C1(m::f(1, 2)) { C1(a) { L0 ..s(2).into_iter().rev() } } } } } } } } } } } } }
}
fn p1550() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C2(m::f(1, 2), a as u8, n: format!("{a},{}", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) { L0 C2(r#"q"#, *&a, n: a == 7 && a != 8, id: r#"q"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 C2("x".to_string(), b'c', n: 1..3, id: "x".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, "t"), n: P { x: 1 }, id: [1, 2]) { L0 C2(a, a + 2 * 3, n: m::X, id: a) { C2(1, -1, n: "a: b", id: 1) { L0 C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L0 ..s(2).into_iter().rev() } } } } } } } } } } } } }
}
fn p1551() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0() L1(if a > 3 { 1 } else { 2 }) }
}
fn p1552() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: "x".to_string()) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1((|v: i32| v + 1)(a)) } }
}
fn p1553() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0() L1(P { x: a }.x) L1(r#"q"#, id: *&a) }
}
fn p1554() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: [1, 2]) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(a) L1(m::f(1, 2), id: a as u8) } }
}
fn p1555() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1((|v: i32| v + 1)(a)) ..s(2) }
}
fn p1556() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: r#"q"#) { L0 L0() L1(P { x: a }.x) ..(0..2).map(|i| widget! { L1(i, n: a) }) } }
}
fn p1557() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0() L1(a) L1(m::f(1, 2), id: a as u8) L0(classes: [1, 2], id: (1, "t")) }
}
fn p1558() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: i32::MAX) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(s(2).len()) L1((|v: i32| v + 1)(a), id: a < 9) L0(classes: "x".to_string(), id: b'c') } }
}
fn p1559() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(1) ..s(2) L0(classes: a, id: a + 2 * 3) }
}
fn p1560() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: (|v: i32| v + 1)(a)) { L0 L0() L1(if a > 3 { 1 } else { 2 }) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: s(2).len(), id: &a) } }
}
fn p1561() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0() L1(i32::MAX) L1(P { x: a }.x, id: <i32>::MIN) L0(classes: r#"q"#, id: *&a) L2(1, -1, n: "a: b",) }
}
fn p1562() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: (|v: i32| v + 1)(a)) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(m::f(1, 2)) L1([1, 2], id: (1, "t")) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L2(s(2).len(), &a, n: !true,) } }
}
fn p1563() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(P { x: a }.x) ..s(2) L0(classes: r#"q"#, id: *&a) L2(1, -1, n: "a: b",) }
}
fn p1564() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: (|v: i32| v + 1)(a)) { L0 L0() L1([1, 2]) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L2(s(2).len(), &a, n: !true,) } }
}
fn p1565() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0() L1(i32::MAX) L1(P { x: a }.x, id: <i32>::MIN) L0(classes: r#"q"#, id: *&a) L2(1, -1, n: "a: b",) F1(|v: i32| v + 1, n: a) }
}
fn p1566() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: i32::MAX) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) F1(|v: i32| v + 1, n: "x".to_string()) } }
}
fn p1567() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(1) ..s(2) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!("{a},{}", 2),) F1(|v: i32| v + 1, n: [1, 2]) }
}
fn p1568() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: r#"q"#) { L0 L0() L1((|v: i32| v + 1)(a)) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: "x".to_string(), id: b'c') L2(i32::MAX, tick(), n: vec![a, a],) F1(|v: i32| v + 1, n: P { x: a }.x) } }
}
fn p1569() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(m::f(1, 2)) L1([1, 2], id: (1, "t")) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L2(s(2).len(), &a, n: !true,) ..s(2) }
}
fn p1570() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: a) { L0 L0() L1(i32::MAX) L1(P { x: a }.x, id: <i32>::MIN) L0(classes: r#"q"#, id: *&a) L2(1, -1, n: "a: b",) ..(0..2).map(|i| widget! { L1(i, n: a) }) } }
}
fn p1571() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) F1(|v: i32| v + 1, n: "x".to_string()) L0 }
}
fn p1572() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: s(2).len()) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(r#"q"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!("{a},{}", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 } }
}
fn p1573() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(i32::MAX) ..s(2) L0(classes: P { x: a }.x, id: <i32>::MIN) L2(r#"q"#, *&a, n: a == 7 && a != 8,) F1(|v: i32| v + 1, n: 1) L0 }
}
fn p1574() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: P { x: a }.x) { L0 L0() L1(if a > 3 { 1 } else { 2 }) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) F1(|v: i32| v + 1, n: "x".to_string()) L0 } }
}
fn p1575() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(a) L1(m::f(1, 2), id: a as u8) L0(classes: [1, 2], id: (1, "t")) L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" },) ..s(2) L0 }
}
fn p1576() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: m::f(1, 2)) { L0 L0() L1(i32::MAX) L1(P { x: a }.x, id: <i32>::MIN) L0(classes: r#"q"#, id: *&a) L2(1, -1, n: "a: b",) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0 } }
}
fn p1577() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0() L1(if a > 3 { 1 } else { 2 }) L1(s(2).len(), id: &a) L0(classes: (|v: i32| v + 1)(a), id: a < 9) L2("x".to_string(), b'c', n: 1..3,) F1(|v: i32| v + 1, n: i32::MAX) L0 L0() }
}
fn p1578() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: i32::MAX) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(a) L1(m::f(1, 2), id: a as u8) L0(classes: [1, 2], id: (1, "t")) L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" },) F1(|v: i32| v + 1, n: s(2).len()) L0 L0() } }
}
fn p1579() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(1) ..s(2) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!("{a},{}", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 L0() }
}
fn p1580() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: [1, 2]) { L0 L0() L1(i32::MAX) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: P { x: a }.x, id: <i32>::MIN) L2(r#"q"#, *&a, n: a == 7 && a != 8,) F1(|v: i32| v + 1, n: 1) L0 L0() } }
}
fn p1581() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1((|v: i32| v + 1)(a)) L1("x".to_string(), id: b'c') L0(classes: i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),) ..s(2) L0 L0() }
}
fn p1582() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: P { x: a }.x) { L0 L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0 L0() } }
}
fn p1583() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0() L1(1) L1(a, id: a + 2 * 3) L0(classes: m::f(1, 2), id: a as u8) L2([1, 2], (1, "t"), n: P { x: 1 },) F1(|v: i32| v + 1, n: if a > 3 { 1 } else { 2 }) L0 L0() L1("x".to_string()) }
}
fn p1584() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: (|v: i32| v + 1)(a)) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(P { x: a }.x) L1(r#"q"#, id: *&a) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) F1(|v: i32| v + 1, n: m::f(1, 2)) L0 L0() L1(s(2).len()) } }
}
fn p1585() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(P { x: a }.x) ..s(2) L0(classes: r#"q"#, id: *&a) L2(1, -1, n: "a: b",) F1(|v: i32| v + 1, n: a) L0 L0() L1(if a > 3 { 1 } else { 2 }) }
}
fn p1586() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: [1, 2]) { L0 L0() L1("x".to_string()) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),) F1(|v: i32| v + 1, n: r#"q"#) L0 L0() L1(m::f(1, 2)) } }
}
fn p1587() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1((|v: i32| v + 1)(a)) L1("x".to_string(), id: b'c') L0(classes: i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),) ..s(2) L0 L0() L1(a) }
}
fn p1588() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: 1) { L0 L0() L1(if a > 3 { 1 } else { 2 }) L1(s(2).len(), id: &a) L0(classes: (|v: i32| v + 1)(a), id: a < 9) L2("x".to_string(), b'c', n: 1..3,) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0 L0() L1(r#"q"#) } }
}
fn p1589() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) F1(|v: i32| v + 1, n: "x".to_string()) L0 L0() ..s(2) }
}
fn p1590() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: i32::MAX) { L0 L0() L1(a) L1(m::f(1, 2), id: a as u8) L0(classes: [1, 2], id: (1, "t")) L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" },) F1(|v: i32| v + 1, n: s(2).len()) L0 L0() ..(0..2).map(|i| widget! { L1(i, n: a) }) } }
}
fn p1591() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0() L1(r#"q"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!("{a},{}", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 L0() L1((|v: i32| v + 1)(a)) L1("x".to_string(), id: b'c') }
}
fn p1592() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: "x".to_string()) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(P { x: a }.x) L1(r#"q"#, id: *&a) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) F1(|v: i32| v + 1, n: m::f(1, 2)) L0 L0() L1(s(2).len()) L1((|v: i32| v + 1)(a), id: a < 9) } }
}
fn p1593() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(r#"q"#) ..s(2) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) F1(|v: i32| v + 1, n: m::f(1, 2)) L0 L0() L1(s(2).len()) L1((|v: i32| v + 1)(a), id: a < 9) }
}
fn p1594() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: (|v: i32| v + 1)(a)) { L0 L0() L1(P { x: a }.x) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: r#"q"#, id: *&a) L2(1, -1, n: "a: b",) F1(|v: i32| v + 1, n: a) L0 L0() L1(if a > 3 { 1 } else { 2 }) L1(s(2).len(), id: &a) } }
}
fn p1595() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(P { x: a }.x) L1(r#"q"#, id: *&a) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) ..s(2) L0 L0() L1(if a > 3 { 1 } else { 2 }) L1(s(2).len(), id: &a) }
}
fn p1596() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: s(2).len()) { L0 L0() L1(i32::MAX) L1(P { x: a }.x, id: <i32>::MIN) L0(classes: r#"q"#, id: *&a) L2(1, -1, n: "a: b",) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0 L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) } }
}
fn p1597() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(i32::MAX) L1(P { x: a }.x, id: <i32>::MIN) L0(classes: r#"q"#, id: *&a) L2(1, -1, n: "a: b",) F1(|v: i32| v + 1, n: a) L0 L0() ..s(2) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }
}
fn p1598() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: if a > 3 { 1 } else { 2 }) { L0 L0() L1("x".to_string()) L1(i32::MAX, id: tick()) L0(classes: P { x: a }.x, id: <i32>::MIN) L2(r#"q"#, *&a, n: a == 7 && a != 8,) F1(|v: i32| v + 1, n: 1) L0 L0() ..(0..2).map(|i| widget! { L1(i, n: a) }) L1([1, 2], id: (1, "t")) } }
}
fn p1599() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0() L1((|v: i32| v + 1)(a)) L1("x".to_string(), id: b'c') L0(classes: i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),) F1(|v: i32| v + 1, n: r#"q"#) L0 L0() L1(m::f(1, 2)) L1([1, 2], id: (1, "t")) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }
}
fn p1600() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: s(2).len()) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1((|v: i32| v + 1)(a)) L1("x".to_string(), id: b'c') L0(classes: i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),) F1(|v: i32| v + 1, n: r#"q"#) L0 L0() L1(m::f(1, 2)) L1([1, 2], id: (1, "t")) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) } }
}
fn p1601() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(i32::MAX) ..s(2) L0(classes: P { x: a }.x, id: <i32>::MIN) L2(r#"q"#, *&a, n: a == 7 && a != 8,) F1(|v: i32| v + 1, n: 1) L0 L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) }
}
fn p1602() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: (|v: i32| v + 1)(a)) { L0 L0() L1(i32::MAX) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: P { x: a }.x, id: <i32>::MIN) L2(r#"q"#, *&a, n: a == 7 && a != 8,) F1(|v: i32| v + 1, n: 1) L0 L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) } }
}
fn p1603() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(P { x: a }.x) L1(r#"q"#, id: *&a) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) ..s(2) L0 L0() L1(if a > 3 { 1 } else { 2 }) L1(s(2).len(), id: &a) L0(classes: (|v: i32| v + 1)(a), id: a < 9) }
}
fn p1604() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: "x".to_string()) { L0 L0() L1(P { x: a }.x) L1(r#"q"#, id: *&a) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0 L0() L1(if a > 3 { 1 } else { 2 }) L1(s(2).len(), id: &a) L0(classes: (|v: i32| v + 1)(a), id: a < 9) } }
}
fn p1605() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(r#"q"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!("{a},{}", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 L0() ..s(2) L1((|v: i32| v + 1)(a), id: a < 9) L0(classes: "x".to_string(), id: b'c') }
}
fn p1606() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: i32::MAX) { L0 L0() L1(r#"q"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!("{a},{}", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 L0() ..(0..2).map(|i| widget! { L1(i, n: a) }) L1((|v: i32| v + 1)(a), id: a < 9) L0(classes: "x".to_string(), id: b'c') } }
}
fn p1607() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0() L1(r#"q"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!("{a},{}", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 L0() L1((|v: i32| v + 1)(a)) L1("x".to_string(), id: b'c') L0(classes: i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),) }
}
fn p1608() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: 1) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(1) L1(a, id: a + 2 * 3) L0(classes: m::f(1, 2), id: a as u8) L2([1, 2], (1, "t"), n: P { x: 1 },) F1(|v: i32| v + 1, n: if a > 3 { 1 } else { 2 }) L0 L0() L1("x".to_string()) L1(i32::MAX, id: tick()) L0(classes: P { x: a }.x, id: <i32>::MIN) L2(r#"q"#, *&a, n: a == 7 && a != 8,) } }
}
fn p1609() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1([1, 2]) ..s(2) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L2(s(2).len(), &a, n: !true,) F1(|v: i32| v + 1, n: (|v: i32| v + 1)(a)) L0 L0() L1(P { x: a }.x) L1(r#"q"#, id: *&a) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) }
}
fn p1610() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: [1, 2]) { L0 L0() L1(if a > 3 { 1 } else { 2 }) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) F1(|v: i32| v + 1, n: "x".to_string()) L0 L0() L1(r#"q"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!("{a},{}", 2),) } }
}
fn p1611() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1((|v: i32| v + 1)(a)) L1("x".to_string(), id: b'c') L0(classes: i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),) ..s(2) L0 L0() L1(a) L1(m::f(1, 2), id: a as u8) L0(classes: [1, 2], id: (1, "t")) L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" },) }
}
fn p1612() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: (|v: i32| v + 1)(a)) { L0 L0() L1("x".to_string()) L1(i32::MAX, id: tick()) L0(classes: P { x: a }.x, id: <i32>::MIN) L2(r#"q"#, *&a, n: a == 7 && a != 8,) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0 L0() L1(m::f(1, 2)) L1([1, 2], id: (1, "t")) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L2(s(2).len(), &a, n: !true,) } }
}
fn p1613() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(P { x: a }.x) L1(r#"q"#, id: *&a) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) F1(|v: i32| v + 1, n: m::f(1, 2)) L0 L0() ..s(2) L1(s(2).len(), id: &a) L0(classes: (|v: i32| v + 1)(a), id: a < 9) L2("x".to_string(), b'c', n: 1..3,) }
}
fn p1614() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: P { x: a }.x) { L0 L0() L1(r#"q"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!("{a},{}", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 L0() ..(0..2).map(|i| widget! { L1(i, n: a) }) L1((|v: i32| v + 1)(a), id: a < 9) L0(classes: "x".to_string(), id: b'c') L2(i32::MAX, tick(), n: vec![a, a],) } }
}
fn p1615() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(a) L1(m::f(1, 2), id: a as u8) L0(classes: [1, 2], id: (1, "t")) L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" },) F1(|v: i32| v + 1, n: s(2).len()) L0 L0() L1(i32::MAX) L1(P { x: a }.x, id: <i32>::MIN) L0(classes: r#"q"#, id: *&a) ..s(2) }
}
fn p1616() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: a) { L0 L0() L1(m::f(1, 2)) L1([1, 2], id: (1, "t")) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L2(s(2).len(), &a, n: !true,) F1(|v: i32| v + 1, n: (|v: i32| v + 1)(a)) L0 L0() L1(P { x: a }.x) L1(r#"q"#, id: *&a) L0(classes: 1, id: -1) ..(0..2).map(|i| widget! { L1(i, n: a) }) } }
}
fn p1617() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { ..s(2) L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) F1(|v: i32| v + 1, n: "x".to_string()) L0 L0() L1(r#"q"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!("{a},{}", 2),) F1(|v: i32| v + 1, n: [1, 2]) }
}
fn p1618() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: (|v: i32| v + 1)(a)) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(s(2).len()) L1((|v: i32| v + 1)(a), id: a < 9) L0(classes: "x".to_string(), id: b'c') L2(i32::MAX, tick(), n: vec![a, a],) F1(|v: i32| v + 1, n: P { x: a }.x) L0 L0() L1(a) L1(m::f(1, 2), id: a as u8) L0(classes: [1, 2], id: (1, "t")) L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => "s", _ => "o" },) F1(|v: i32| v + 1, n: s(2).len()) } }
}
fn p1619() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(P { x: a }.x) ..s(2) L0(classes: r#"q"#, id: *&a) L2(1, -1, n: "a: b",) F1(|v: i32| v + 1, n: a) L0 L0() L1(if a > 3 { 1 } else { 2 }) L1(s(2).len(), id: &a) L0(classes: (|v: i32| v + 1)(a), id: a < 9) L2("x".to_string(), b'c', n: 1..3,) F1(|v: i32| v + 1, n: i32::MAX) }
}
fn p1620() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: 1) { L0 L0() L1(1) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!("{a},{}", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 L0() L1((|v: i32| v + 1)(a)) L1("x".to_string(), id: b'c') L0(classes: i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),) F1(|v: i32| v + 1, n: r#"q"#) } }
}
fn p1621() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) ..s(2) L0 L0() L1(P { x: a }.x) L1(r#"q"#, id: *&a) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) F1(|v: i32| v + 1, n: m::f(1, 2)) }
}
fn p1622() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: s(2).len()) { L0 L0() L1(s(2).len()) L1((|v: i32| v + 1)(a), id: a < 9) L0(classes: "x".to_string(), id: b'c') L2(i32::MAX, tick(), n: vec![a, a],) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0 L0() L1(1) L1(a, id: a + 2 * 3) L0(classes: m::f(1, 2), id: a as u8) L2([1, 2], (1, "t"), n: P { x: 1 },) F1(|v: i32| v + 1, n: if a > 3 { 1 } else { 2 }) } }
}
fn p1623() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(i32::MAX) L1(P { x: a }.x, id: <i32>::MIN) L0(classes: r#"q"#, id: *&a) L2(1, -1, n: "a: b",) F1(|v: i32| v + 1, n: a) L0 L0() ..s(2) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) F1(|v: i32| v + 1, n: "x".to_string()) }
}
fn p1624() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: r#"q"#) { L0 L0() L1(r#"q"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!("{a},{}", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 L0() ..(0..2).map(|i| widget! { L1(i, n: a) }) L1((|v: i32| v + 1)(a), id: a < 9) L0(classes: "x".to_string(), id: b'c') L2(i32::MAX, tick(), n: vec![a, a],) F1(|v: i32| v + 1, n: P { x: a }.x) } }
}
fn p1625() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { L0 L0() L1(m::f(1, 2)) L1([1, 2], id: (1, "t")) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L2(s(2).len(), &a, n: !true,) F1(|v: i32| v + 1, n: (|v: i32| v + 1)(a)) L0 L0() L1(P { x: a }.x) L1(r#"q"#, id: *&a) L0(classes: 1, id: -1) ..s(2) F1(|v: i32| v + 1, n: a) }
}
fn p1626() -> Vec<Box<dyn Widget<Msg>>> {
    let a = 7;
    ui! { C0(id: if a > 3 { 1 } else { 2 }) { L0 L0() L1(if a > 3 { 1 } else { 2 }) L1(s(2).len(), id: &a) L0(classes: (|v: i32| v + 1)(a), id: a < 9) L2("x".to_string(), b'c', n: 1..3,) F1(|v: i32| v + 1, n: i32::MAX) L0 L0() L1(1) L1(a, id: a + 2 * 3) L0(classes: m::f(1, 2), id: a as u8) ..(0..2).map(|i| widget! { L1(i, n: a) }) F1(|v: i32| v + 1, n: [1, 2]) } }
}

pub const PROGRAMS: &[(&str, &str, fn() -> Vec<Box<dyn Widget<Msg>>>)] = &[
    ("L1(1)", "L1(1)", p0),
    ("L2(0, 1)", "L2(0|1)", p1),
    ("L2(1, 0, id: 1)", "L2(1|0).id=1", p2),
    ("L0(id: 1)", "L0().id=1", p3),
    ("L1(2, id: 1, n: 3)", "L1(2).id=1.n=3", p4),
    ("C1(1) { L0 }", "C1(1){L0()}", p5),
    ("C0(n: 1) { }", "C0().n=1{}", p6),
    ("C2(1, 1, id: 1) { ..s(1) }", "C2(1|1).id=1{S(0)}", p7),
    ("L1(-1)", "L1(-1)", p8),
    ("L2(0, -1)", "L2(0|-1)", p9),
    ("L2(-1, 0, id: 1)", "L2(-1|0).id=1", p10),
    ("L0(id: -1)", "L0().id=-1", p11),
    ("L1(2, id: -1, n: 3)", "L1(2).id=-1.n=3", p12),
    ("C1(-1) { L0 }", "C1(-1){L0()}", p13),
    ("C0(n: -1) { }", "C0().n=-1{}", p14),
    ("C2(-1, 1, id: -1) { ..s(1) }", "C2(-1|1).id=-1{S(0)}", p15),
    ("L1(\"a: b\")", "L1(\"a: b\")", p16),
    ("L2(0, \"a: b\")", "L2(0|\"a: b\")", p17),
    ("L2(\"a: b\", 0, id: 1)", "L2(\"a: b\"|0).id=1", p18),
    ("L0(id: \"a: b\")", "L0().id=\"a: b\"", p19),
    ("L1(2, id: \"a: b\", n: 3)", "L1(2).id=\"a: b\".n=3", p20),
    ("C1(\"a: b\") { L0 }", "C1(\"a: b\"){L0()}", p21),
    ("C0(n: \"a: b\") { }", "C0().n=\"a: b\"{}", p22),
    ("C2(\"a: b\", 1, id: \"a: b\") { ..s(1) }", "C2(\"a: b\"|1).id=\"a: b\"{S(0)}", p23),
    ("L1(a)", "L1(7)", p24),
    ("L2(0, a)", "L2(0|7)", p25),
    ("L2(a, 0, id: 1)", "L2(7|0).id=1", p26),
    ("L0(id: a)", "L0().id=7", p27),
    ("L1(2, id: a, n: 3)", "L1(2).id=7.n=3", p28),
    ("C1(a) { L0 }", "C1(7){L0()}", p29),
    ("C0(n: a) { }", "C0().n=7{}", p30),
    ("C2(a, 1, id: a) { ..s(1) }", "C2(7|1).id=7{S(0)}", p31),
    ("L1(a + 2 * 3)", "L1(13)", p32),
    ("L2(0, a + 2 * 3)", "L2(0|13)", p33),
    ("L2(a + 2 * 3, 0, id: 1)", "L2(13|0).id=1", p34),
    ("L0(id: a + 2 * 3)", "L0().id=13", p35),
    ("L1(2, id: a + 2 * 3, n: 3)", "L1(2).id=13.n=3", p36),
    ("C1(a + 2 * 3) { L0 }", "C1(13){L0()}", p37),
    ("C0(n: a + 2 * 3) { }", "C0().n=13{}", p38),
    ("C2(a + 2 * 3, 1, id: a + 2 * 3) { ..s(1) }", "C2(13|1).id=13{S(0)}", p39),
    ("L1(m::X)", "L1(5)", p40),
    ("L2(0, m::X)", "L2(0|5)", p41),
    ("L2(m::X, 0, id: 1)", "L2(5|0).id=1", p42),
    ("L0(id: m::X)", "L0().id=5", p43),
    ("L1(2, id: m::X, n: 3)", "L1(2).id=5.n=3", p44),
    ("C1(m::X) { L0 }", "C1(5){L0()}", p45),
    ("C0(n: m::X) { }", "C0().n=5{}", p46),
    ("C2(m::X, 1, id: m::X) { ..s(1) }", "C2(5|1).id=5{S(0)}", p47),
    ("L1(m::f(1, 2))", "L1((1, 2))", p48),
    ("L2(0, m::f(1, 2))", "L2(0|(1, 2))", p49),
    ("L2(m::f(1, 2), 0, id: 1)", "L2((1, 2)|0).id=1", p50),
    ("L0(id: m::f(1, 2))", "L0().id=(1, 2)", p51),
    ("L1(2, id: m::f(1, 2), n: 3)", "L1(2).id=(1, 2).n=3", p52),
    ("C1(m::f(1, 2)) { L0 }", "C1((1, 2)){L0()}", p53),
    ("C0(n: m::f(1, 2)) { }", "C0().n=(1, 2){}", p54),
    ("C2(m::f(1, 2), 1, id: m::f(1, 2)) { ..s(1) }", "C2((1, 2)|1).id=(1, 2){S(0)}", p55),
    ("L1(a as u8)", "L1(7)", p56),
    ("L2(0, a as u8)", "L2(0|7)", p57),
    ("L2(a as u8, 0, id: 1)", "L2(7|0).id=1", p58),
    ("L0(id: a as u8)", "L0().id=7", p59),
    ("L1(2, id: a as u8, n: 3)", "L1(2).id=7.n=3", p60),
    ("C1(a as u8) { L0 }", "C1(7){L0()}", p61),
    ("C0(n: a as u8) { }", "C0().n=7{}", p62),
    ("C2(a as u8, 1, id: a as u8) { ..s(1) }", "C2(7|1).id=7{S(0)}", p63),
    ("L1(format!(\"{a},{}\", 2))", "L1(\"7,2\")", p64),
    ("L2(0, format!(\"{a},{}\", 2))", "L2(0|\"7,2\")", p65),
    ("L2(format!(\"{a},{}\", 2), 0, id: 1)", "L2(\"7,2\"|0).id=1", p66),
    ("L0(id: format!(\"{a},{}\", 2))", "L0().id=\"7,2\"", p67),
    ("L1(2, id: format!(\"{a},{}\", 2), n: 3)", "L1(2).id=\"7,2\".n=3", p68),
    ("C1(format!(\"{a},{}\", 2)) { L0 }", "C1(\"7,2\"){L0()}", p69),
    ("C0(n: format!(\"{a},{}\", 2)) { }", "C0().n=\"7,2\"{}", p70),
    ("C2(format!(\"{a},{}\", 2), 1, id: format!(\"{a},{}\", 2)) { ..s(1) }", "C2(\"7,2\"|1).id=\"7,2\"{S(0)}", p71),
    ("L1([1, 2])", "L1([1, 2])", p72),
    ("L2(0, [1, 2])", "L2(0|[1, 2])", p73),
    ("L2([1, 2], 0, id: 1)", "L2([1, 2]|0).id=1", p74),
    ("L0(id: [1, 2])", "L0().id=[1, 2]", p75),
    ("L1(2, id: [1, 2], n: 3)", "L1(2).id=[1, 2].n=3", p76),
    ("C1([1, 2]) { L0 }", "C1([1, 2]){L0()}", p77),
    ("C0(n: [1, 2]) { }", "C0().n=[1, 2]{}", p78),
    ("C2([1, 2], 1, id: [1, 2]) { ..s(1) }", "C2([1, 2]|1).id=[1, 2]{S(0)}", p79),
    ("L1((1, \"t\"))", "L1((1, \"t\"))", p80),
    ("L2(0, (1, \"t\"))", "L2(0|(1, \"t\"))", p81),
    ("L2((1, \"t\"), 0, id: 1)", "L2((1, \"t\")|0).id=1", p82),
    ("L0(id: (1, \"t\"))", "L0().id=(1, \"t\")", p83),
    ("L1(2, id: (1, \"t\"), n: 3)", "L1(2).id=(1, \"t\").n=3", p84),
    ("C1((1, \"t\")) { L0 }", "C1((1, \"t\")){L0()}", p85),
    ("C0(n: (1, \"t\")) { }", "C0().n=(1, \"t\"){}", p86),
    ("C2((1, \"t\"), 1, id: (1, \"t\")) { ..s(1) }", "C2((1, \"t\")|1).id=(1, \"t\"){S(0)}", p87),
    ("L1(P { x: 1 })", "L1(P { x: 1 })", p88),
    ("L2(0, P { x: 1 })", "L2(0|P { x: 1 })", p89),
    ("L2(P { x: 1 }, 0, id: 1)", "L2(P { x: 1 }|0).id=1", p90),
    ("L0(id: P { x: 1 })", "L0().id=P { x: 1 }", p91),
    ("L1(2, id: P { x: 1 }, n: 3)", "L1(2).id=P { x: 1 }.n=3", p92),
    ("C1(P { x: 1 }) { L0 }", "C1(P { x: 1 }){L0()}", p93),
    ("C0(n: P { x: 1 }) { }", "C0().n=P { x: 1 }{}", p94),
    ("C2(P { x: 1 }, 1, id: P { x: 1 }) { ..s(1) }", "C2(P { x: 1 }|1).id=P { x: 1 }{S(0)}", p95),
    ("L1(if a > 3 { 1 } else { 2 })", "L1(1)", p96),
    ("L2(0, if a > 3 { 1 } else { 2 })", "L2(0|1)", p97),
    ("L2(if a > 3 { 1 } else { 2 }, 0, id: 1)", "L2(1|0).id=1", p98),
    ("L0(id: if a > 3 { 1 } else { 2 })", "L0().id=1", p99),
    ("L1(2, id: if a > 3 { 1 } else { 2 }, n: 3)", "L1(2).id=1.n=3", p100),
    ("C1(if a > 3 { 1 } else { 2 }) { L0 }", "C1(1){L0()}", p101),
    ("C0(n: if a > 3 { 1 } else { 2 }) { }", "C0().n=1{}", p102),
    ("C2(if a > 3 { 1 } else { 2 }, 1, id: if a > 3 { 1 } else { 2 }) { ..s(1) }", "C2(1|1).id=1{S(0)}", p103),
    ("L1({ let b = a; b })", "L1(7)", p104),
    ("L2(0, { let b = a; b })", "L2(0|7)", p105),
    ("L2({ let b = a; b }, 0, id: 1)", "L2(7|0).id=1", p106),
    ("L0(id: { let b = a; b })", "L0().id=7", p107),
    ("L1(2, id: { let b = a; b }, n: 3)", "L1(2).id=7.n=3", p108),
    ("C1({ let b = a; b }) { L0 }", "C1(7){L0()}", p109),
    ("C0(n: { let b = a; b }) { }", "C0().n=7{}", p110),
    ("C2({ let b = a; b }, 1, id: { let b = a; b }) { ..s(1) }", "C2(7|1).id=7{S(0)}", p111),
    ("L1(match a { 7 => \"s\", _ => \"o\" })", "L1(\"s\")", p112),
    ("L2(0, match a { 7 => \"s\", _ => \"o\" })", "L2(0|\"s\")", p113),
    ("L2(match a { 7 => \"s\", _ => \"o\" }, 0, id: 1)", "L2(\"s\"|0).id=1", p114),
    ("L0(id: match a { 7 => \"s\", _ => \"o\" })", "L0().id=\"s\"", p115),
    ("L1(2, id: match a { 7 => \"s\", _ => \"o\" }, n: 3)", "L1(2).id=\"s\".n=3", p116),
    ("C1(match a { 7 => \"s\", _ => \"o\" }) { L0 }", "C1(\"s\"){L0()}", p117),
    ("C0(n: match a { 7 => \"s\", _ => \"o\" }) { }", "C0().n=\"s\"{}", p118),
    ("C2(match a { 7 => \"s\", _ => \"o\" }, 1, id: match a { 7 => \"s\", _ => \"o\" }) { ..s(1) }", "C2(\"s\"|1).id=\"s\"{S(0)}", p119),
    ("L1(s(2).len())", "L1(2)", p120),
    ("L2(0, s(2).len())", "L2(0|2)", p121),
    ("L2(s(2).len(), 0, id: 1)", "L2(2|0).id=1", p122),
    ("L0(id: s(2).len())", "L0().id=2", p123),
    ("L1(2, id: s(2).len(), n: 3)", "L1(2).id=2.n=3", p124),
    ("C1(s(2).len()) { L0 }", "C1(2){L0()}", p125),
    ("C0(n: s(2).len()) { }", "C0().n=2{}", p126),
    ("C2(s(2).len(), 1, id: s(2).len()) { ..s(1) }", "C2(2|1).id=2{S(0)}", p127),
    ("L1(&a)", "L1(7)", p128),
    ("L2(0, &a)", "L2(0|7)", p129),
    ("L2(&a, 0, id: 1)", "L2(7|0).id=1", p130),
    ("L0(id: &a)", "L0().id=7", p131),
    ("L1(2, id: &a, n: 3)", "L1(2).id=7.n=3", p132),
    ("C1(&a) { L0 }", "C1(7){L0()}", p133),
    ("C0(n: &a) { }", "C0().n=7{}", p134),
    ("C2(&a, 1, id: &a) { ..s(1) }", "C2(7|1).id=7{S(0)}", p135),
    ("L1(!true)", "L1(false)", p136),
    ("L2(0, !true)", "L2(0|false)", p137),
    ("L2(!true, 0, id: 1)", "L2(false|0).id=1", p138),
    ("L0(id: !true)", "L0().id=false", p139),
    ("L1(2, id: !true, n: 3)", "L1(2).id=false.n=3", p140),
    ("C1(!true) { L0 }", "C1(false){L0()}", p141),
    ("C0(n: !true) { }", "C0().n=false{}", p142),
    ("C2(!true, 1, id: !true) { ..s(1) }", "C2(false|1).id=false{S(0)}", p143),
    ("L1((|v: i32| v + 1)(a))", "L1(8)", p144),
    ("L2(0, (|v: i32| v + 1)(a))", "L2(0|8)", p145),
    ("L2((|v: i32| v + 1)(a), 0, id: 1)", "L2(8|0).id=1", p146),
    ("L0(id: (|v: i32| v + 1)(a))", "L0().id=8", p147),
    ("L1(2, id: (|v: i32| v + 1)(a), n: 3)", "L1(2).id=8.n=3", p148),
    ("C1((|v: i32| v + 1)(a)) { L0 }", "C1(8){L0()}", p149),
    ("C0(n: (|v: i32| v + 1)(a)) { }", "C0().n=8{}", p150),
    ("C2((|v: i32| v + 1)(a), 1, id: (|v: i32| v + 1)(a)) { ..s(1) }", "C2(8|1).id=8{S(0)}", p151),
    ("L1(a < 9)", "L1(true)", p152),
    ("L2(0, a < 9)", "L2(0|true)", p153),
    ("L2(a < 9, 0, id: 1)", "L2(true|0).id=1", p154),
    ("L0(id: a < 9)", "L0().id=true", p155),
    ("L1(2, id: a < 9, n: 3)", "L1(2).id=true.n=3", p156),
    ("C1(a < 9) { L0 }", "C1(true){L0()}", p157),
    ("C0(n: a < 9) { }", "C0().n=true{}", p158),
    ("C2(a < 9, 1, id: a < 9) { ..s(1) }", "C2(true|1).id=true{S(0)}", p159),
    ("L1(Some::<i32>(1))", "L1(Some(1))", p160),
    ("L2(0, Some::<i32>(1))", "L2(0|Some(1))", p161),
    ("L2(Some::<i32>(1), 0, id: 1)", "L2(Some(1)|0).id=1", p162),
    ("L0(id: Some::<i32>(1))", "L0().id=Some(1)", p163),
    ("L1(2, id: Some::<i32>(1), n: 3)", "L1(2).id=Some(1).n=3", p164),
    ("C1(Some::<i32>(1)) { L0 }", "C1(Some(1)){L0()}", p165),
    ("C0(n: Some::<i32>(1)) { }", "C0().n=Some(1){}", p166),
    ("C2(Some::<i32>(1), 1, id: Some::<i32>(1)) { ..s(1) }", "C2(Some(1)|1).id=Some(1){S(0)}", p167),
    ("L1(\"x\".to_string())", "L1(\"x\")", p168),
    ("L2(0, \"x\".to_string())", "L2(0|\"x\")", p169),
    ("L2(\"x\".to_string(), 0, id: 1)", "L2(\"x\"|0).id=1", p170),
    ("L0(id: \"x\".to_string())", "L0().id=\"x\"", p171),
    ("L1(2, id: \"x\".to_string(), n: 3)", "L1(2).id=\"x\".n=3", p172),
    ("C1(\"x\".to_string()) { L0 }", "C1(\"x\"){L0()}", p173),
    ("C0(n: \"x\".to_string()) { }", "C0().n=\"x\"{}", p174),
    ("C2(\"x\".to_string(), 1, id: \"x\".to_string()) { ..s(1) }", "C2(\"x\"|1).id=\"x\"{S(0)}", p175),
    ("L1(b'c')", "L1(99)", p176),
    ("L2(0, b'c')", "L2(0|99)", p177),
    ("L2(b'c', 0, id: 1)", "L2(99|0).id=1", p178),
    ("L0(id: b'c')", "L0().id=99", p179),
    ("L1(2, id: b'c', n: 3)", "L1(2).id=99.n=3", p180),
    ("C1(b'c') { L0 }", "C1(99){L0()}", p181),
    ("C0(n: b'c') { }", "C0().n=99{}", p182),
    ("C2(b'c', 1, id: b'c') { ..s(1) }", "C2(99|1).id=99{S(0)}", p183),
    ("L1(1..3)", "L1(1..3)", p184),
    ("L2(0, 1..3)", "L2(0|1..3)", p185),
    ("L2(1..3, 0, id: 1)", "L2(1..3|0).id=1", p186),
    ("L0(id: 1..3)", "L0().id=1..3", p187),
    ("L1(2, id: 1..3, n: 3)", "L1(2).id=1..3.n=3", p188),
    ("C1(1..3) { L0 }", "C1(1..3){L0()}", p189),
    ("C0(n: 1..3) { }", "C0().n=1..3{}", p190),
    ("C2(1..3, 1, id: 1..3) { ..s(1) }", "C2(1..3|1).id=1..3{S(0)}", p191),
    ("L1(i32::MAX)", "L1(2147483647)", p192),
    ("L2(0, i32::MAX)", "L2(0|2147483647)", p193),
    ("L2(i32::MAX, 0, id: 1)", "L2(2147483647|0).id=1", p194),
    ("L0(id: i32::MAX)", "L0().id=2147483647", p195),
    ("L1(2, id: i32::MAX, n: 3)", "L1(2).id=2147483647.n=3", p196),
    ("C1(i32::MAX) { L0 }", "C1(2147483647){L0()}", p197),
    ("C0(n: i32::MAX) { }", "C0().n=2147483647{}", p198),
    ("C2(i32::MAX, 1, id: i32::MAX) { ..s(1) }", "C2(2147483647|1).id=2147483647{S(0)}", p199),
    ("L1(tick())", "L1(tick)", p200),
    ("L2(0, tick())", "L2(0|tick)", p201),
    ("L2(tick(), 0, id: 1)", "L2(tick|0).id=1", p202),
    ("L0(id: tick())", "L0().id=tick", p203),
    ("L1(2, id: tick(), n: 3)", "L1(2).id=tick.n=3", p204),
    ("C1(tick()) { L0 }", "C1(tick){L0()}", p205),
    ("C0(n: tick()) { }", "C0().n=tick{}", p206),
    ("C2(tick(), 1, id: tick()) { ..s(1) }", "C2(tick|1).id=tick{S(0)}", p207),
    ("L1(vec![a, a])", "L1([7, 7])", p208),
    ("L2(0, vec![a, a])", "L2(0|[7, 7])", p209),
    ("L2(vec![a, a], 0, id: 1)", "L2([7, 7]|0).id=1", p210),
    ("L0(id: vec![a, a])", "L0().id=[7, 7]", p211),
    ("L1(2, id: vec![a, a], n: 3)", "L1(2).id=[7, 7].n=3", p212),
    ("C1(vec![a, a]) { L0 }", "C1([7, 7]){L0()}", p213),
    ("C0(n: vec![a, a]) { }", "C0().n=[7, 7]{}", p214),
    ("C2(vec![a, a], 1, id: vec![a, a]) { ..s(1) }", "C2([7, 7]|1).id=[7, 7]{S(0)}", p215),
    ("L1(P { x: a }.x)", "L1(7)", p216),
    ("L2(0, P { x: a }.x)", "L2(0|7)", p217),
    ("L2(P { x: a }.x, 0, id: 1)", "L2(7|0).id=1", p218),
    ("L0(id: P { x: a }.x)", "L0().id=7", p219),
    ("L1(2, id: P { x: a }.x, n: 3)", "L1(2).id=7.n=3", p220),
    ("C1(P { x: a }.x) { L0 }", "C1(7){L0()}", p221),
    ("C0(n: P { x: a }.x) { }", "C0().n=7{}", p222),
    ("C2(P { x: a }.x, 1, id: P { x: a }.x) { ..s(1) }", "C2(7|1).id=7{S(0)}", p223),
    ("L1(<i32>::MIN)", "L1(-2147483648)", p224),
    ("L2(0, <i32>::MIN)", "L2(0|-2147483648)", p225),
    ("L2(<i32>::MIN, 0, id: 1)", "L2(-2147483648|0).id=1", p226),
    ("L0(id: <i32>::MIN)", "L0().id=-2147483648", p227),
    ("L1(2, id: <i32>::MIN, n: 3)", "L1(2).id=-2147483648.n=3", p228),
    ("C1(<i32>::MIN) { L0 }", "C1(-2147483648){L0()}", p229),
    ("C0(n: <i32>::MIN) { }", "C0().n=-2147483648{}", p230),
    ("C2(<i32>::MIN, 1, id: <i32>::MIN) { ..s(1) }", "C2(-2147483648|1).id=-2147483648{S(0)}", p231),
    ("L1((a))", "L1(7)", p232),
    ("L2(0, (a))", "L2(0|7)", p233),
    ("L2((a), 0, id: 1)", "L2(7|0).id=1", p234),
    ("L0(id: (a))", "L0().id=7", p235),
    ("L1(2, id: (a), n: 3)", "L1(2).id=7.n=3", p236),
    ("C1((a)) { L0 }", "C1(7){L0()}", p237),
    ("C0(n: (a)) { }", "C0().n=7{}", p238),
    ("C2((a), 1, id: (a)) { ..s(1) }", "C2(7|1).id=7{S(0)}", p239),
    ("L1(r#\"q\"#)", "L1(\"q\")", p240),
    ("L2(0, r#\"q\"#)", "L2(0|\"q\")", p241),
    ("L2(r#\"q\"#, 0, id: 1)", "L2(\"q\"|0).id=1", p242),
    ("L0(id: r#\"q\"#)", "L0().id=\"q\"", p243),
    ("L1(2, id: r#\"q\"#, n: 3)", "L1(2).id=\"q\".n=3", p244),
    ("C1(r#\"q\"#) { L0 }", "C1(\"q\"){L0()}", p245),
    ("C0(n: r#\"q\"#) { }", "C0().n=\"q\"{}", p246),
    ("C2(r#\"q\"#, 1, id: r#\"q\"#) { ..s(1) }", "C2(\"q\"|1).id=\"q\"{S(0)}", p247),
    ("L1(*&a)", "L1(7)", p248),
    ("L2(0, *&a)", "L2(0|7)", p249),
    ("L2(*&a, 0, id: 1)", "L2(7|0).id=1", p250),
    ("L0(id: *&a)", "L0().id=7", p251),
    ("L1(2, id: *&a, n: 3)", "L1(2).id=7.n=3", p252),
    ("C1(*&a) { L0 }", "C1(7){L0()}", p253),
    ("C0(n: *&a) { }", "C0().n=7{}", p254),
    ("C2(*&a, 1, id: *&a) { ..s(1) }", "C2(7|1).id=7{S(0)}", p255),
    ("L1(a == 7 && a != 8)", "L1(true)", p256),
    ("L2(0, a == 7 && a != 8)", "L2(0|true)", p257),
    ("L2(a == 7 && a != 8, 0, id: 1)", "L2(true|0).id=1", p258),
    ("L0(id: a == 7 && a != 8)", "L0().id=true", p259),
    ("L1(2, id: a == 7 && a != 8, n: 3)", "L1(2).id=true.n=3", p260),
    ("C1(a == 7 && a != 8) { L0 }", "C1(true){L0()}", p261),
    ("C0(n: a == 7 && a != 8) { }", "C0().n=true{}", p262),
    ("C2(a == 7 && a != 8, 1, id: a == 7 && a != 8) { ..s(1) }", "C2(true|1).id=true{S(0)}", p263),
    ("L0", "L0()", p264),
    ("L0()", "L0()", p265),
    ("L1(m::f(1, 2))", "L1((1, 2))", p266),
    ("L1([1, 2], id: (1, \"t\"))", "L1([1, 2]).id=(1, \"t\")", p267),
    ("L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b })", "L0().classes=1.id=7", p268),
    ("L2(s(2).len(), &a, n: !true,)", "L2(2|7).n=false", p269),
    ("F1(|v: i32| v + 1, n: (|v: i32| v + 1)(a))", "F1(11).n=8", p270),
    ("..v", "V()", p271),
    ("..s(2)", "S(0) S(1)", p272),
    ("..s(0)", "", p273),
    ("..s(2).into_iter().rev()", "S(1) S(0)", p274),
    ("..ui! { L1(1) L0 }", "L1(1) L0()", p275),
    ("..if a > 3 { s(1) } else { s(0) }", "S(0)", p276),
    ("..(0..2).map(|i| widget! { L1(i, n: a) })", "L1(0).n=7 L1(1).n=7", p277),
    ("..Some(widget! { C0 { L1(2) } })", "C0(){L1(2)}", p278),
    ("..vec![widget! { L0 }]", "L0()", p279),
    ("..{ s(1) }", "S(0)", p280),
    ("..match a { _ => s(1) }", "S(0)", p281),
    ("C0 {  }", "C0(){}", p282),
    ("C0(id: i32::MAX) {  }", "C0().id=2147483647{}", p283),
    ("C1(P { x: a }.x) {  }", "C1(7){}", p284),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  }", "C2(\"q\"|7).n=true.id=\"q\"{}", p285),
    ("L0 L0", "L0() L0()", p286),
    ("L0() L0", "L0() L0()", p287),
    ("L1(if a > 3 { 1 } else { 2 }) L0", "L1(1) L0()", p288),
    ("L1((|v: i32| v + 1)(a), id: a < 9) L0", "L1(8).id=true L0()", p289),
    ("L0(classes: i32::MAX, id: tick()) L0", "L0().classes=2147483647.id=tick L0()", p290),
    ("L2(r#\"q\"#, *&a, n: a == 7 && a != 8,) L0", "L2(\"q\"|7).n=true L0()", p291),
    ("F1(|v: i32| v + 1, n: a) L0", "F1(11).n=7 L0()", p292),
    ("..v L0", "V() L0()", p293),
    ("..s(2) L0", "S(0) S(1) L0()", p294),
    ("..s(0) L0", "L0()", p295),
    ("..s(2).into_iter().rev() L0", "S(1) S(0) L0()", p296),
    ("..ui! { L1(1) L0 } L0", "L1(1) L0() L0()", p297),
    ("..if a > 3 { s(1) } else { s(0) } L0", "S(0) L0()", p298),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) L0", "L1(0).n=7 L1(1).n=7 L0()", p299),
    ("..Some(widget! { C0 { L1(2) } }) L0", "C0(){L1(2)} L0()", p300),
    ("..vec![widget! { L0 }] L0", "L0() L0()", p301),
    ("..{ s(1) } L0", "S(0) L0()", p302),
    ("..match a { _ => s(1) } L0", "S(0) L0()", p303),
    ("C0 {  } L0", "C0(){} L0()", p304),
    ("C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } L0", "C2(2|7).n=false.id=2{} L0()", p305),
    ("L0 L0()", "L0() L0()", p306),
    ("L0() L0()", "L0() L0()", p307),
    ("L1(1) L0()", "L1(1) L0()", p308),
    ("L1(m::f(1, 2), id: a as u8) L0()", "L1((1, 2)).id=7 L0()", p309),
    ("L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0()", "L0().classes=1.id=7 L0()", p310),
    ("L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) L0()", "L2(8|true).n=Some(1) L0()", p311),
    ("F1(|v: i32| v + 1, n: i32::MAX) L0()", "F1(11).n=2147483647 L0()", p312),
    ("..v L0()", "V() L0()", p313),
    ("..s(2) L0()", "S(0) S(1) L0()", p314),
    ("..s(0) L0()", "L0()", p315),
    ("..s(2).into_iter().rev() L0()", "S(1) S(0) L0()", p316),
    ("..ui! { L1(1) L0 } L0()", "L1(1) L0() L0()", p317),
    ("..if a > 3 { s(1) } else { s(0) } L0()", "S(0) L0()", p318),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) L0()", "L1(0).n=7 L1(1).n=7 L0()", p319),
    ("..Some(widget! { C0 { L1(2) } }) L0()", "C0(){L1(2)} L0()", p320),
    ("..vec![widget! { L0 }] L0()", "L0() L0()", p321),
    ("..{ s(1) } L0()", "S(0) L0()", p322),
    ("..match a { _ => s(1) } L0()", "S(0) L0()", p323),
    ("C0 {  } L0()", "C0(){} L0()", p324),
    ("C2(a, a + 2 * 3, n: m::X, id: a) {  } L0()", "C2(7|13).n=5.id=7{} L0()", p325),
    ("L0 L1(if a > 3 { 1 } else { 2 })", "L0() L1(1)", p326),
    ("L0() L1((|v: i32| v + 1)(a))", "L0() L1(8)", p327),
    ("L1(\"x\".to_string()) L1(i32::MAX)", "L1(\"x\") L1(2147483647)", p328),
    ("L1(P { x: a }.x, id: <i32>::MIN) L1(r#\"q\"#)", "L1(7).id=-2147483648 L1(\"q\")", p329),
    ("L0(classes: 1, id: -1) L1(a)", "L0().classes=1.id=-1 L1(7)", p330),
    ("L2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2),) L1([1, 2])", "L2((1, 2)|7).n=\"7,2\" L1([1, 2])", p331),
    ("F1(|v: i32| v + 1, n: if a > 3 { 1 } else { 2 }) L1(s(2).len())", "F1(11).n=1 L1(2)", p332),
    ("..v L1((|v: i32| v + 1)(a))", "V() L1(8)", p333),
    ("..s(2) L1(\"x\".to_string())", "S(0) S(1) L1(\"x\")", p334),
    ("..s(0) L1(i32::MAX)", "L1(2147483647)", p335),
    ("..s(2).into_iter().rev() L1(P { x: a }.x)", "S(1) S(0) L1(7)", p336),
    ("..ui! { L1(1) L0 } L1(r#\"q\"#)", "L1(1) L0() L1(\"q\")", p337),
    ("..if a > 3 { s(1) } else { s(0) } L1(1)", "S(0) L1(1)", p338),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) L1(a)", "L1(0).n=7 L1(1).n=7 L1(7)", p339),
    ("..Some(widget! { C0 { L1(2) } }) L1(m::f(1, 2))", "C0(){L1(2)} L1((1, 2))", p340),
    ("..vec![widget! { L0 }] L1([1, 2])", "L0() L1([1, 2])", p341),
    ("..{ s(1) } L1(if a > 3 { 1 } else { 2 })", "S(0) L1(1)", p342),
    ("..match a { _ => s(1) } L1(s(2).len())", "S(0) L1(2)", p343),
    ("C0 {  } L1(\"x\".to_string())", "C0(){} L1(\"x\")", p344),
    ("C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } L1(P { x: a }.x)", "C2(2147483647|tick).n=[7, 7].id=2147483647{} L1(7)", p345),
    ("L0 L1(1, id: -1)", "L0() L1(1).id=-1", p346),
    ("L0() L1(m::f(1, 2), id: a as u8)", "L0() L1((1, 2)).id=7", p347),
    ("L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b })", "L1([1, 2]) L1(1).id=7", p348),
    ("L1(s(2).len(), id: &a) L1((|v: i32| v + 1)(a), id: a < 9)", "L1(2).id=7 L1(8).id=true", p349),
    ("L0(classes: \"x\".to_string(), id: b'c') L1(i32::MAX, id: tick())", "L0().classes=\"x\".id=99 L1(2147483647).id=tick", p350),
    ("L2(P { x: a }.x, <i32>::MIN, n: (a),) L1(r#\"q\"#, id: *&a)", "L2(7|-2147483648).n=7 L1(\"q\").id=7", p351),
    ("F1(|v: i32| v + 1, n: 1) L1(a, id: a + 2 * 3)", "F1(11).n=1 L1(7).id=13", p352),
    ("..v L1(m::f(1, 2), id: a as u8)", "V() L1((1, 2)).id=7", p353),
    ("..s(2) L1([1, 2], id: (1, \"t\"))", "S(0) S(1) L1([1, 2]).id=(1, \"t\")", p354),
    ("..s(0) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b })", "L1(1).id=7", p355),
    ("..s(2).into_iter().rev() L1(s(2).len(), id: &a)", "S(1) S(0) L1(2).id=7", p356),
    ("..ui! { L1(1) L0 } L1((|v: i32| v + 1)(a), id: a < 9)", "L1(1) L0() L1(8).id=true", p357),
    ("..if a > 3 { s(1) } else { s(0) } L1(\"x\".to_string(), id: b'c')", "S(0) L1(\"x\").id=99", p358),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) L1(i32::MAX, id: tick())", "L1(0).n=7 L1(1).n=7 L1(2147483647).id=tick", p359),
    ("..Some(widget! { C0 { L1(2) } }) L1(P { x: a }.x, id: <i32>::MIN)", "C0(){L1(2)} L1(7).id=-2147483648", p360),
    ("..vec![widget! { L0 }] L1(r#\"q\"#, id: *&a)", "L0() L1(\"q\").id=7", p361),
    ("..{ s(1) } L1(1, id: -1)", "S(0) L1(1).id=-1", p362),
    ("..match a { _ => s(1) } L1(a, id: a + 2 * 3)", "S(0) L1(7).id=13", p363),
    ("C0 {  } L1([1, 2], id: (1, \"t\"))", "C0(){} L1([1, 2]).id=(1, \"t\")", p364),
    ("C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } L1(s(2).len(), id: &a)", "C2(1|7).n=\"s\".id=1{} L1(2).id=7", p365),
    ("L0 L0(classes: \"x\".to_string(), id: b'c')", "L0() L0().classes=\"x\".id=99", p366),
    ("L0() L0(classes: P { x: a }.x, id: <i32>::MIN)", "L0() L0().classes=7.id=-2147483648", p367),
    ("L1(r#\"q\"#) L0(classes: 1, id: -1)", "L1(\"q\") L0().classes=1.id=-1", p368),
    ("L1(a, id: a + 2 * 3) L0(classes: m::f(1, 2), id: a as u8)", "L1(7).id=13 L0().classes=(1, 2).id=7", p369),
    ("L0(classes: [1, 2], id: (1, \"t\")) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b })", "L0().classes=[1, 2].id=(1, \"t\") L0().classes=1.id=7", p370),
    ("L2(s(2).len(), &a, n: !true,) L0(classes: (|v: i32| v + 1)(a), id: a < 9)", "L2(2|7).n=false L0().classes=8.id=true", p371),
    ("F1(|v: i32| v + 1, n: \"x\".to_string()) L0(classes: i32::MAX, id: tick())", "F1(11).n=\"x\" L0().classes=2147483647.id=tick", p372),
    ("..v L0(classes: P { x: a }.x, id: <i32>::MIN)", "V() L0().classes=7.id=-2147483648", p373),
    ("..s(2) L0(classes: r#\"q\"#, id: *&a)", "S(0) S(1) L0().classes=\"q\".id=7", p374),
    ("..s(0) L0(classes: 1, id: -1)", "L0().classes=1.id=-1", p375),
    ("..s(2).into_iter().rev() L0(classes: a, id: a + 2 * 3)", "S(1) S(0) L0().classes=7.id=13", p376),
    ("..ui! { L1(1) L0 } L0(classes: m::f(1, 2), id: a as u8)", "L1(1) L0() L0().classes=(1, 2).id=7", p377),
    ("..if a > 3 { s(1) } else { s(0) } L0(classes: [1, 2], id: (1, \"t\"))", "S(0) L0().classes=[1, 2].id=(1, \"t\")", p378),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b })", "L1(0).n=7 L1(1).n=7 L0().classes=1.id=7", p379),
    ("..Some(widget! { C0 { L1(2) } }) L0(classes: s(2).len(), id: &a)", "C0(){L1(2)} L0().classes=2.id=7", p380),
    ("..vec![widget! { L0 }] L0(classes: (|v: i32| v + 1)(a), id: a < 9)", "L0() L0().classes=8.id=true", p381),
    ("..{ s(1) } L0(classes: \"x\".to_string(), id: b'c')", "S(0) L0().classes=\"x\".id=99", p382),
    ("..match a { _ => s(1) } L0(classes: i32::MAX, id: tick())", "S(0) L0().classes=2147483647.id=tick", p383),
    ("C0 {  } L0(classes: r#\"q\"#, id: *&a)", "C0(){} L0().classes=\"q\".id=7", p384),
    ("C2(1, -1, n: \"a: b\", id: 1) {  } L0(classes: a, id: a + 2 * 3)", "C2(1|-1).n=\"a: b\".id=1{} L0().classes=7.id=13", p385),
    ("L0 L2([1, 2], (1, \"t\"), n: P { x: 1 },)", "L0() L2([1, 2]|(1, \"t\")).n=P { x: 1 }", p386),
    ("L0() L2(s(2).len(), &a, n: !true,)", "L0() L2(2|7).n=false", p387),
    ("L1((|v: i32| v + 1)(a)) L2(\"x\".to_string(), b'c', n: 1..3,)", "L1(8) L2(\"x\"|99).n=1..3", p388),
    ("L1(i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),)", "L1(2147483647).id=tick L2(7|-2147483648).n=7", p389),
    ("L0(classes: r#\"q\"#, id: *&a) L2(1, -1, n: \"a: b\",)", "L0().classes=\"q\".id=7 L2(1|-1).n=\"a: b\"", p390),
    ("L2(a, a + 2 * 3, n: m::X,) L2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2),)", "L2(7|13).n=5 L2((1, 2)|7).n=\"7,2\"", p391),
    ("F1(|v: i32| v + 1, n: [1, 2]) L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" },)", "F1(11).n=[1, 2] L2(1|7).n=\"s\"", p392),
    ("..v L2(s(2).len(), &a, n: !true,)", "V() L2(2|7).n=false", p393),
    ("..s(2) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),)", "S(0) S(1) L2(8|true).n=Some(1)", p394),
    ("..s(0) L2(\"x\".to_string(), b'c', n: 1..3,)", "L2(\"x\"|99).n=1..3", p395),
    ("..s(2).into_iter().rev() L2(i32::MAX, tick(), n: vec![a, a],)", "S(1) S(0) L2(2147483647|tick).n=[7, 7]", p396),
    ("..ui! { L1(1) L0 } L2(P { x: a }.x, <i32>::MIN, n: (a),)", "L1(1) L0() L2(7|-2147483648).n=7", p397),
    ("..if a > 3 { s(1) } else { s(0) } L2(r#\"q\"#, *&a, n: a == 7 && a != 8,)", "S(0) L2(\"q\"|7).n=true", p398),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) L2(1, -1, n: \"a: b\",)", "L1(0).n=7 L1(1).n=7 L2(1|-1).n=\"a: b\"", p399),
    ("..Some(widget! { C0 { L1(2) } }) L2(a, a + 2 * 3, n: m::X,)", "C0(){L1(2)} L2(7|13).n=5", p400),
    ("..vec![widget! { L0 }] L2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2),)", "L0() L2((1, 2)|7).n=\"7,2\"", p401),
    ("..{ s(1) } L2([1, 2], (1, \"t\"), n: P { x: 1 },)", "S(0) L2([1, 2]|(1, \"t\")).n=P { x: 1 }", p402),
    ("..match a { _ => s(1) } L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" },)", "S(0) L2(1|7).n=\"s\"", p403),
    ("C0 {  } L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),)", "C0(){} L2(8|true).n=Some(1)", p404),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) {  } L2(i32::MAX, tick(), n: vec![a, a],)", "C2(\"x\"|99).n=1..3.id=\"x\"{} L2(2147483647|tick).n=[7, 7]", p405),
    ("L0 F1(|v: i32| v + 1, n: r#\"q\"#)", "L0() F1(11).n=\"q\"", p406),
    ("L0() F1(|v: i32| v + 1, n: a)", "L0() F1(11).n=7", p407),
    ("L1(m::f(1, 2)) F1(|v: i32| v + 1, n: [1, 2])", "L1((1, 2)) F1(11).n=[1, 2]", p408),
    ("L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) F1(|v: i32| v + 1, n: s(2).len())", "L1(1).id=7 F1(11).n=2", p409),
    ("L0(classes: (|v: i32| v + 1)(a), id: a < 9) F1(|v: i32| v + 1, n: \"x\".to_string())", "L0().classes=8.id=true F1(11).n=\"x\"", p410),
    ("L2(i32::MAX, tick(), n: vec![a, a],) F1(|v: i32| v + 1, n: P { x: a }.x)", "L2(2147483647|tick).n=[7, 7] F1(11).n=7", p411),
    ("F1(|v: i32| v + 1, n: r#\"q\"#) F1(|v: i32| v + 1, n: 1)", "F1(11).n=\"q\" F1(11).n=1", p412),
    ("..v F1(|v: i32| v + 1, n: a)", "V() F1(11).n=7", p413),
    ("..s(2) F1(|v: i32| v + 1, n: m::f(1, 2))", "S(0) S(1) F1(11).n=(1, 2)", p414),
    ("..s(0) F1(|v: i32| v + 1, n: [1, 2])", "F1(11).n=[1, 2]", p415),
    ("..s(2).into_iter().rev() F1(|v: i32| v + 1, n: if a > 3 { 1 } else { 2 })", "S(1) S(0) F1(11).n=1", p416),
    ("..ui! { L1(1) L0 } F1(|v: i32| v + 1, n: s(2).len())", "L1(1) L0() F1(11).n=2", p417),
    ("..if a > 3 { s(1) } else { s(0) } F1(|v: i32| v + 1, n: (|v: i32| v + 1)(a))", "S(0) F1(11).n=8", p418),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) F1(|v: i32| v + 1, n: \"x\".to_string())", "L1(0).n=7 L1(1).n=7 F1(11).n=\"x\"", p419),
    ("..Some(widget! { C0 { L1(2) } }) F1(|v: i32| v + 1, n: i32::MAX)", "C0(){L1(2)} F1(11).n=2147483647", p420),
    ("..vec![widget! { L0 }] F1(|v: i32| v + 1, n: P { x: a }.x)", "L0() F1(11).n=7", p421),
    ("..{ s(1) } F1(|v: i32| v + 1, n: r#\"q\"#)", "S(0) F1(11).n=\"q\"", p422),
    ("..match a { _ => s(1) } F1(|v: i32| v + 1, n: 1)", "S(0) F1(11).n=1", p423),
    ("C0 {  } F1(|v: i32| v + 1, n: m::f(1, 2))", "C0(){} F1(11).n=(1, 2)", p424),
    ("C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  } F1(|v: i32| v + 1, n: if a > 3 { 1 } else { 2 })", "C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{} F1(11).n=1", p425),
    ("L0 ..v", "L0() V()", p426),
    ("L0() ..v", "L0() V()", p427),
    ("L1(\"x\".to_string()) ..v", "L1(\"x\") V()", p428),
    ("L1(i32::MAX, id: tick()) ..v", "L1(2147483647).id=tick V()", p429),
    ("L0(classes: P { x: a }.x, id: <i32>::MIN) ..v", "L0().classes=7.id=-2147483648 V()", p430),
    ("L2(r#\"q\"#, *&a, n: a == 7 && a != 8,) ..v", "L2(\"q\"|7).n=true V()", p431),
    ("F1(|v: i32| v + 1, n: 1) ..v", "F1(11).n=1 V()", p432),
    ("..s(2) ..v", "S(0) S(1) V()", p433),
    ("..s(0) ..v", "V()", p434),
    ("..s(2).into_iter().rev() ..v", "S(1) S(0) V()", p435),
    ("..ui! { L1(1) L0 } ..v", "L1(1) L0() V()", p436),
    ("..if a > 3 { s(1) } else { s(0) } ..v", "S(0) V()", p437),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) ..v", "L1(0).n=7 L1(1).n=7 V()", p438),
    ("..Some(widget! { C0 { L1(2) } }) ..v", "C0(){L1(2)} V()", p439),
    ("..vec![widget! { L0 }] ..v", "L0() V()", p440),
    ("..{ s(1) } ..v", "S(0) V()", p441),
    ("..match a { _ => s(1) } ..v", "S(0) V()", p442),
    ("C0 {  } ..v", "C0(){} V()", p443),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) {  } ..v", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){} V()", p444),
    ("L0 ..s(2)", "L0() S(0) S(1)", p445),
    ("L0() ..s(2)", "L0() S(0) S(1)", p446),
    ("L1(s(2).len()) ..s(2)", "L1(2) S(0) S(1)", p447),
    ("L1((|v: i32| v + 1)(a), id: a < 9) ..s(2)", "L1(8).id=true S(0) S(1)", p448),
    ("L0(classes: \"x\".to_string(), id: b'c') ..s(2)", "L0().classes=\"x\".id=99 S(0) S(1)", p449),
    ("L2(i32::MAX, tick(), n: vec![a, a],) ..s(2)", "L2(2147483647|tick).n=[7, 7] S(0) S(1)", p450),
    ("F1(|v: i32| v + 1, n: P { x: a }.x) ..s(2)", "F1(11).n=7 S(0) S(1)", p451),
    ("..v ..s(2)", "V() S(0) S(1)", p452),
    ("..s(2) ..s(2)", "S(0) S(1) S(0) S(1)", p453),
    ("..s(0) ..s(2)", "S(0) S(1)", p454),
    ("..s(2).into_iter().rev() ..s(2)", "S(1) S(0) S(0) S(1)", p455),
    ("..ui! { L1(1) L0 } ..s(2)", "L1(1) L0() S(0) S(1)", p456),
    ("..if a > 3 { s(1) } else { s(0) } ..s(2)", "S(0) S(0) S(1)", p457),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) ..s(2)", "L1(0).n=7 L1(1).n=7 S(0) S(1)", p458),
    ("..Some(widget! { C0 { L1(2) } }) ..s(2)", "C0(){L1(2)} S(0) S(1)", p459),
    ("..vec![widget! { L0 }] ..s(2)", "L0() S(0) S(1)", p460),
    ("..{ s(1) } ..s(2)", "S(0) S(0) S(1)", p461),
    ("..match a { _ => s(1) } ..s(2)", "S(0) S(0) S(1)", p462),
    ("C0 {  } ..s(2)", "C0(){} S(0) S(1)", p463),
    ("C2(1, -1, n: \"a: b\", id: 1) {  } ..s(2)", "C2(1|-1).n=\"a: b\".id=1{} S(0) S(1)", p464),
    ("L0 ..s(0)", "L0()", p465),
    ("L0() ..s(0)", "L0()", p466),
    ("L1([1, 2]) ..s(0)", "L1([1, 2])", p467),
    ("L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) ..s(0)", "L1(1).id=7", p468),
    ("L0(classes: s(2).len(), id: &a) ..s(0)", "L0().classes=2.id=7", p469),
    ("L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) ..s(0)", "L2(8|true).n=Some(1)", p470),
    ("F1(|v: i32| v + 1, n: \"x\".to_string()) ..s(0)", "F1(11).n=\"x\"", p471),
    ("..v ..s(0)", "V()", p472),
    ("..s(2) ..s(0)", "S(0) S(1)", p473),
    ("..s(0) ..s(0)", "", p474),
    ("..s(2).into_iter().rev() ..s(0)", "S(1) S(0)", p475),
    ("..ui! { L1(1) L0 } ..s(0)", "L1(1) L0()", p476),
    ("..if a > 3 { s(1) } else { s(0) } ..s(0)", "S(0)", p477),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) ..s(0)", "L1(0).n=7 L1(1).n=7", p478),
    ("..Some(widget! { C0 { L1(2) } }) ..s(0)", "C0(){L1(2)}", p479),
    ("..vec![widget! { L0 }] ..s(0)", "L0()", p480),
    ("..{ s(1) } ..s(0)", "S(0)", p481),
    ("..match a { _ => s(1) } ..s(0)", "S(0)", p482),
    ("C0 {  } ..s(0)", "C0(){}", p483),
    ("C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } ..s(0)", "C2(7|-2147483648).n=7.id=7{}", p484),
    ("L0 ..s(2).into_iter().rev()", "L0() S(1) S(0)", p485),
    ("L0() ..s(2).into_iter().rev()", "L0() S(1) S(0)", p486),
    ("L1(a) ..s(2).into_iter().rev()", "L1(7) S(1) S(0)", p487),
    ("L1(m::f(1, 2), id: a as u8) ..s(2).into_iter().rev()", "L1((1, 2)).id=7 S(1) S(0)", p488),
    ("L0(classes: [1, 2], id: (1, \"t\")) ..s(2).into_iter().rev()", "L0().classes=[1, 2].id=(1, \"t\") S(1) S(0)", p489),
    ("L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" },) ..s(2).into_iter().rev()", "L2(1|7).n=\"s\" S(1) S(0)", p490),
    ("F1(|v: i32| v + 1, n: s(2).len()) ..s(2).into_iter().rev()", "F1(11).n=2 S(1) S(0)", p491),
    ("..v ..s(2).into_iter().rev()", "V() S(1) S(0)", p492),
    ("..s(2) ..s(2).into_iter().rev()", "S(0) S(1) S(1) S(0)", p493),
    ("..s(0) ..s(2).into_iter().rev()", "S(1) S(0)", p494),
    ("..s(2).into_iter().rev() ..s(2).into_iter().rev()", "S(1) S(0) S(1) S(0)", p495),
    ("..ui! { L1(1) L0 } ..s(2).into_iter().rev()", "L1(1) L0() S(1) S(0)", p496),
    ("..if a > 3 { s(1) } else { s(0) } ..s(2).into_iter().rev()", "S(0) S(1) S(0)", p497),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) ..s(2).into_iter().rev()", "L1(0).n=7 L1(1).n=7 S(1) S(0)", p498),
    ("..Some(widget! { C0 { L1(2) } }) ..s(2).into_iter().rev()", "C0(){L1(2)} S(1) S(0)", p499),
    ("..vec![widget! { L0 }] ..s(2).into_iter().rev()", "L0() S(1) S(0)", p500),
    ("..{ s(1) } ..s(2).into_iter().rev()", "S(0) S(1) S(0)", p501),
    ("..match a { _ => s(1) } ..s(2).into_iter().rev()", "S(0) S(1) S(0)", p502),
    ("C0 {  } ..s(2).into_iter().rev()", "C0(){} S(1) S(0)", p503),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) {  } ..s(2).into_iter().rev()", "C2(\"x\"|99).n=1..3.id=\"x\"{} S(1) S(0)", p504),
    ("L0 ..ui! { L1(1) L0 }", "L0() L1(1) L0()", p505),
    ("L0() ..ui! { L1(1) L0 }", "L0() L1(1) L0()", p506),
    ("L1(r#\"q\"#) ..ui! { L1(1) L0 }", "L1(\"q\") L1(1) L0()", p507),
    ("L1(1, id: -1) ..ui! { L1(1) L0 }", "L1(1).id=-1 L1(1) L0()", p508),
    ("L0(classes: a, id: a + 2 * 3) ..ui! { L1(1) L0 }", "L0().classes=7.id=13 L1(1) L0()", p509),
    ("L2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2),) ..ui! { L1(1) L0 }", "L2((1, 2)|7).n=\"7,2\" L1(1) L0()", p510),
    ("F1(|v: i32| v + 1, n: [1, 2]) ..ui! { L1(1) L0 }", "F1(11).n=[1, 2] L1(1) L0()", p511),
    ("..v ..ui! { L1(1) L0 }", "V() L1(1) L0()", p512),
    ("..s(2) ..ui! { L1(1) L0 }", "S(0) S(1) L1(1) L0()", p513),
    ("..s(0) ..ui! { L1(1) L0 }", "L1(1) L0()", p514),
    ("..s(2).into_iter().rev() ..ui! { L1(1) L0 }", "S(1) S(0) L1(1) L0()", p515),
    ("..ui! { L1(1) L0 } ..ui! { L1(1) L0 }", "L1(1) L0() L1(1) L0()", p516),
    ("..if a > 3 { s(1) } else { s(0) } ..ui! { L1(1) L0 }", "S(0) L1(1) L0()", p517),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) ..ui! { L1(1) L0 }", "L1(0).n=7 L1(1).n=7 L1(1) L0()", p518),
    ("..Some(widget! { C0 { L1(2) } }) ..ui! { L1(1) L0 }", "C0(){L1(2)} L1(1) L0()", p519),
    ("..vec![widget! { L0 }] ..ui! { L1(1) L0 }", "L0() L1(1) L0()", p520),
    ("..{ s(1) } ..ui! { L1(1) L0 }", "S(0) L1(1) L0()", p521),
    ("..match a { _ => s(1) } ..ui! { L1(1) L0 }", "S(0) L1(1) L0()", p522),
    ("C0 {  } ..ui! { L1(1) L0 }", "C0(){} L1(1) L0()", p523),
    ("C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } ..ui! { L1(1) L0 }", "C2(2|7).n=false.id=2{} L1(1) L0()", p524),
    ("L0 ..if a > 3 { s(1) } else { s(0) }", "L0() S(0)", p525),
    ("L0() ..if a > 3 { s(1) } else { s(0) }", "L0() S(0)", p526),
    ("L1(i32::MAX) ..if a > 3 { s(1) } else { s(0) }", "L1(2147483647) S(0)", p527),
    ("L1(P { x: a }.x, id: <i32>::MIN) ..if a > 3 { s(1) } else { s(0) }", "L1(7).id=-2147483648 S(0)", p528),
    ("L0(classes: r#\"q\"#, id: *&a) ..if a > 3 { s(1) } else { s(0) }", "L0().classes=\"q\".id=7 S(0)", p529),
    ("L2(1, -1, n: \"a: b\",) ..if a > 3 { s(1) } else { s(0) }", "L2(1|-1).n=\"a: b\" S(0)", p530),
    ("F1(|v: i32| v + 1, n: a) ..if a > 3 { s(1) } else { s(0) }", "F1(11).n=7 S(0)", p531),
    ("..v ..if a > 3 { s(1) } else { s(0) }", "V() S(0)", p532),
    ("..s(2) ..if a > 3 { s(1) } else { s(0) }", "S(0) S(1) S(0)", p533),
    ("..s(0) ..if a > 3 { s(1) } else { s(0) }", "S(0)", p534),
    ("..s(2).into_iter().rev() ..if a > 3 { s(1) } else { s(0) }", "S(1) S(0) S(0)", p535),
    ("..ui! { L1(1) L0 } ..if a > 3 { s(1) } else { s(0) }", "L1(1) L0() S(0)", p536),
    ("..if a > 3 { s(1) } else { s(0) } ..if a > 3 { s(1) } else { s(0) }", "S(0) S(0)", p537),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) ..if a > 3 { s(1) } else { s(0) }", "L1(0).n=7 L1(1).n=7 S(0)", p538),
    ("..Some(widget! { C0 { L1(2) } }) ..if a > 3 { s(1) } else { s(0) }", "C0(){L1(2)} S(0)", p539),
    ("..vec![widget! { L0 }] ..if a > 3 { s(1) } else { s(0) }", "L0() S(0)", p540),
    ("..{ s(1) } ..if a > 3 { s(1) } else { s(0) }", "S(0) S(0)", p541),
    ("..match a { _ => s(1) } ..if a > 3 { s(1) } else { s(0) }", "S(0) S(0)", p542),
    ("C0 {  } ..if a > 3 { s(1) } else { s(0) }", "C0(){} S(0)", p543),
    ("C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  } ..if a > 3 { s(1) } else { s(0) }", "C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{} S(0)", p544),
    ("L0 ..(0..2).map(|i| widget! { L1(i, n: a) })", "L0() L1(0).n=7 L1(1).n=7", p545),
    ("L0() ..(0..2).map(|i| widget! { L1(i, n: a) })", "L0() L1(0).n=7 L1(1).n=7", p546),
    ("L1((|v: i32| v + 1)(a)) ..(0..2).map(|i| widget! { L1(i, n: a) })", "L1(8) L1(0).n=7 L1(1).n=7", p547),
    ("L1(\"x\".to_string(), id: b'c') ..(0..2).map(|i| widget! { L1(i, n: a) })", "L1(\"x\").id=99 L1(0).n=7 L1(1).n=7", p548),
    ("L0(classes: i32::MAX, id: tick()) ..(0..2).map(|i| widget! { L1(i, n: a) })", "L0().classes=2147483647.id=tick L1(0).n=7 L1(1).n=7", p549),
    ("L2(P { x: a }.x, <i32>::MIN, n: (a),) ..(0..2).map(|i| widget! { L1(i, n: a) })", "L2(7|-2147483648).n=7 L1(0).n=7 L1(1).n=7", p550),
    ("F1(|v: i32| v + 1, n: r#\"q\"#) ..(0..2).map(|i| widget! { L1(i, n: a) })", "F1(11).n=\"q\" L1(0).n=7 L1(1).n=7", p551),
    ("..v ..(0..2).map(|i| widget! { L1(i, n: a) })", "V() L1(0).n=7 L1(1).n=7", p552),
    ("..s(2) ..(0..2).map(|i| widget! { L1(i, n: a) })", "S(0) S(1) L1(0).n=7 L1(1).n=7", p553),
    ("..s(0) ..(0..2).map(|i| widget! { L1(i, n: a) })", "L1(0).n=7 L1(1).n=7", p554),
    ("..s(2).into_iter().rev() ..(0..2).map(|i| widget! { L1(i, n: a) })", "S(1) S(0) L1(0).n=7 L1(1).n=7", p555),
    ("..ui! { L1(1) L0 } ..(0..2).map(|i| widget! { L1(i, n: a) })", "L1(1) L0() L1(0).n=7 L1(1).n=7", p556),
    ("..if a > 3 { s(1) } else { s(0) } ..(0..2).map(|i| widget! { L1(i, n: a) })", "S(0) L1(0).n=7 L1(1).n=7", p557),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) ..(0..2).map(|i| widget! { L1(i, n: a) })", "L1(0).n=7 L1(1).n=7 L1(0).n=7 L1(1).n=7", p558),
    ("..Some(widget! { C0 { L1(2) } }) ..(0..2).map(|i| widget! { L1(i, n: a) })", "C0(){L1(2)} L1(0).n=7 L1(1).n=7", p559),
    ("..vec![widget! { L0 }] ..(0..2).map(|i| widget! { L1(i, n: a) })", "L0() L1(0).n=7 L1(1).n=7", p560),
    ("..{ s(1) } ..(0..2).map(|i| widget! { L1(i, n: a) })", "S(0) L1(0).n=7 L1(1).n=7", p561),
    ("..match a { _ => s(1) } ..(0..2).map(|i| widget! { L1(i, n: a) })", "S(0) L1(0).n=7 L1(1).n=7", p562),
    ("C0 {  } ..(0..2).map(|i| widget! { L1(i, n: a) })", "C0(){} L1(0).n=7 L1(1).n=7", p563),
    ("C2(a, a + 2 * 3, n: m::X, id: a) {  } ..(0..2).map(|i| widget! { L1(i, n: a) })", "C2(7|13).n=5.id=7{} L1(0).n=7 L1(1).n=7", p564),
    ("L0 ..Some(widget! { C0 { L1(2) } })", "L0() C0(){L1(2)}", p565),
    ("L0() ..Some(widget! { C0 { L1(2) } })", "L0() C0(){L1(2)}", p566),
    ("L1(if a > 3 { 1 } else { 2 }) ..Some(widget! { C0 { L1(2) } })", "L1(1) C0(){L1(2)}", p567),
    ("L1(s(2).len(), id: &a) ..Some(widget! { C0 { L1(2) } })", "L1(2).id=7 C0(){L1(2)}", p568),
    ("L0(classes: (|v: i32| v + 1)(a), id: a < 9) ..Some(widget! { C0 { L1(2) } })", "L0().classes=8.id=true C0(){L1(2)}", p569),
    ("L2(\"x\".to_string(), b'c', n: 1..3,) ..Some(widget! { C0 { L1(2) } })", "L2(\"x\"|99).n=1..3 C0(){L1(2)}", p570),
    ("F1(|v: i32| v + 1, n: i32::MAX) ..Some(widget! { C0 { L1(2) } })", "F1(11).n=2147483647 C0(){L1(2)}", p571),
    ("..v ..Some(widget! { C0 { L1(2) } })", "V() C0(){L1(2)}", p572),
    ("..s(2) ..Some(widget! { C0 { L1(2) } })", "S(0) S(1) C0(){L1(2)}", p573),
    ("..s(0) ..Some(widget! { C0 { L1(2) } })", "C0(){L1(2)}", p574),
    ("..s(2).into_iter().rev() ..Some(widget! { C0 { L1(2) } })", "S(1) S(0) C0(){L1(2)}", p575),
    ("..ui! { L1(1) L0 } ..Some(widget! { C0 { L1(2) } })", "L1(1) L0() C0(){L1(2)}", p576),
    ("..if a > 3 { s(1) } else { s(0) } ..Some(widget! { C0 { L1(2) } })", "S(0) C0(){L1(2)}", p577),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) ..Some(widget! { C0 { L1(2) } })", "L1(0).n=7 L1(1).n=7 C0(){L1(2)}", p578),
    ("..Some(widget! { C0 { L1(2) } }) ..Some(widget! { C0 { L1(2) } })", "C0(){L1(2)} C0(){L1(2)}", p579),
    ("..vec![widget! { L0 }] ..Some(widget! { C0 { L1(2) } })", "L0() C0(){L1(2)}", p580),
    ("..{ s(1) } ..Some(widget! { C0 { L1(2) } })", "S(0) C0(){L1(2)}", p581),
    ("..match a { _ => s(1) } ..Some(widget! { C0 { L1(2) } })", "S(0) C0(){L1(2)}", p582),
    ("C0 {  } ..Some(widget! { C0 { L1(2) } })", "C0(){} C0(){L1(2)}", p583),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  } ..Some(widget! { C0 { L1(2) } })", "C2(\"q\"|7).n=true.id=\"q\"{} C0(){L1(2)}", p584),
    ("L0 ..vec![widget! { L0 }]", "L0() L0()", p585),
    ("L0() ..vec![widget! { L0 }]", "L0() L0()", p586),
    ("L1(m::f(1, 2)) ..vec![widget! { L0 }]", "L1((1, 2)) L0()", p587),
    ("L1([1, 2], id: (1, \"t\")) ..vec![widget! { L0 }]", "L1([1, 2]).id=(1, \"t\") L0()", p588),
    ("L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) ..vec![widget! { L0 }]", "L0().classes=1.id=7 L0()", p589),
    ("L2(s(2).len(), &a, n: !true,) ..vec![widget! { L0 }]", "L2(2|7).n=false L0()", p590),
    ("F1(|v: i32| v + 1, n: (|v: i32| v + 1)(a)) ..vec![widget! { L0 }]", "F1(11).n=8 L0()", p591),
    ("..v ..vec![widget! { L0 }]", "V() L0()", p592),
    ("..s(2) ..vec![widget! { L0 }]", "S(0) S(1) L0()", p593),
    ("..s(0) ..vec![widget! { L0 }]", "L0()", p594),
    ("..s(2).into_iter().rev() ..vec![widget! { L0 }]", "S(1) S(0) L0()", p595),
    ("..ui! { L1(1) L0 } ..vec![widget! { L0 }]", "L1(1) L0() L0()", p596),
    ("..if a > 3 { s(1) } else { s(0) } ..vec![widget! { L0 }]", "S(0) L0()", p597),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) ..vec![widget! { L0 }]", "L1(0).n=7 L1(1).n=7 L0()", p598),
    ("..Some(widget! { C0 { L1(2) } }) ..vec![widget! { L0 }]", "C0(){L1(2)} L0()", p599),
    ("..vec![widget! { L0 }] ..vec![widget! { L0 }]", "L0() L0()", p600),
    ("..{ s(1) } ..vec![widget! { L0 }]", "S(0) L0()", p601),
    ("..match a { _ => s(1) } ..vec![widget! { L0 }]", "S(0) L0()", p602),
    ("C0 {  } ..vec![widget! { L0 }]", "C0(){} L0()", p603),
    ("C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } ..vec![widget! { L0 }]", "C2(2147483647|tick).n=[7, 7].id=2147483647{} L0()", p604),
    ("L0 ..{ s(1) }", "L0() S(0)", p605),
    ("L0() ..{ s(1) }", "L0() S(0)", p606),
    ("L1(1) ..{ s(1) }", "L1(1) S(0)", p607),
    ("L1(a, id: a + 2 * 3) ..{ s(1) }", "L1(7).id=13 S(0)", p608),
    ("L0(classes: m::f(1, 2), id: a as u8) ..{ s(1) }", "L0().classes=(1, 2).id=7 S(0)", p609),
    ("L2([1, 2], (1, \"t\"), n: P { x: 1 },) ..{ s(1) }", "L2([1, 2]|(1, \"t\")).n=P { x: 1 } S(0)", p610),
    ("F1(|v: i32| v + 1, n: if a > 3 { 1 } else { 2 }) ..{ s(1) }", "F1(11).n=1 S(0)", p611),
    ("..v ..{ s(1) }", "V() S(0)", p612),
    ("..s(2) ..{ s(1) }", "S(0) S(1) S(0)", p613),
    ("..s(0) ..{ s(1) }", "S(0)", p614),
    ("..s(2).into_iter().rev() ..{ s(1) }", "S(1) S(0) S(0)", p615),
    ("..ui! { L1(1) L0 } ..{ s(1) }", "L1(1) L0() S(0)", p616),
    ("..if a > 3 { s(1) } else { s(0) } ..{ s(1) }", "S(0) S(0)", p617),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) ..{ s(1) }", "L1(0).n=7 L1(1).n=7 S(0)", p618),
    ("..Some(widget! { C0 { L1(2) } }) ..{ s(1) }", "C0(){L1(2)} S(0)", p619),
    ("..vec![widget! { L0 }] ..{ s(1) }", "L0() S(0)", p620),
    ("..{ s(1) } ..{ s(1) }", "S(0) S(0)", p621),
    ("..match a { _ => s(1) } ..{ s(1) }", "S(0) S(0)", p622),
    ("C0 {  } ..{ s(1) }", "C0(){} S(0)", p623),
    ("C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } ..{ s(1) }", "C2(8|true).n=Some(1).id=8{} S(0)", p624),
    ("L0 ..match a { _ => s(1) }", "L0() S(0)", p625),
    ("L0() ..match a { _ => s(1) }", "L0() S(0)", p626),
    ("L1(P { x: a }.x) ..match a { _ => s(1) }", "L1(7) S(0)", p627),
    ("L1(r#\"q\"#, id: *&a) ..match a { _ => s(1) }", "L1(\"q\").id=7 S(0)", p628),
    ("L0(classes: 1, id: -1) ..match a { _ => s(1) }", "L0().classes=1.id=-1 S(0)", p629),
    ("L2(a, a + 2 * 3, n: m::X,) ..match a { _ => s(1) }", "L2(7|13).n=5 S(0)", p630),
    ("F1(|v: i32| v + 1, n: m::f(1, 2)) ..match a { _ => s(1) }", "F1(11).n=(1, 2) S(0)", p631),
    ("..v ..match a { _ => s(1) }", "V() S(0)", p632),
    ("..s(2) ..match a { _ => s(1) }", "S(0) S(1) S(0)", p633),
    ("..s(0) ..match a { _ => s(1) }", "S(0)", p634),
    ("..s(2).into_iter().rev() ..match a { _ => s(1) }", "S(1) S(0) S(0)", p635),
    ("..ui! { L1(1) L0 } ..match a { _ => s(1) }", "L1(1) L0() S(0)", p636),
    ("..if a > 3 { s(1) } else { s(0) } ..match a { _ => s(1) }", "S(0) S(0)", p637),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) ..match a { _ => s(1) }", "L1(0).n=7 L1(1).n=7 S(0)", p638),
    ("..Some(widget! { C0 { L1(2) } }) ..match a { _ => s(1) }", "C0(){L1(2)} S(0)", p639),
    ("..vec![widget! { L0 }] ..match a { _ => s(1) }", "L0() S(0)", p640),
    ("..{ s(1) } ..match a { _ => s(1) }", "S(0) S(0)", p641),
    ("..match a { _ => s(1) } ..match a { _ => s(1) }", "S(0) S(0)", p642),
    ("C0 {  } ..match a { _ => s(1) }", "C0(){} S(0)", p643),
    ("C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } ..match a { _ => s(1) }", "C2(1|7).n=\"s\".id=1{} S(0)", p644),
    ("L0 C0 {  }", "L0() C0(){}", p645),
    ("L0() C0 {  }", "L0() C0(){}", p646),
    ("L1(P { x: a }.x) C0 {  }", "L1(7) C0(){}", p647),
    ("L1(1, id: -1) C0 {  }", "L1(1).id=-1 C0(){}", p648),
    ("L0(classes: m::f(1, 2), id: a as u8) C0 {  }", "L0().classes=(1, 2).id=7 C0(){}", p649),
    ("L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" },) C0 {  }", "L2(1|7).n=\"s\" C0(){}", p650),
    ("F1(|v: i32| v + 1, n: (|v: i32| v + 1)(a)) C0 {  }", "F1(11).n=8 C0(){}", p651),
    ("..v C0 {  }", "V() C0(){}", p652),
    ("..s(2) C0 {  }", "S(0) S(1) C0(){}", p653),
    ("..s(0) C0 {  }", "C0(){}", p654),
    ("..s(2).into_iter().rev() C0 {  }", "S(1) S(0) C0(){}", p655),
    ("..ui! { L1(1) L0 } C0 {  }", "L1(1) L0() C0(){}", p656),
    ("..if a > 3 { s(1) } else { s(0) } C0 {  }", "S(0) C0(){}", p657),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) C0 {  }", "L1(0).n=7 L1(1).n=7 C0(){}", p658),
    ("..Some(widget! { C0 { L1(2) } }) C0 {  }", "C0(){L1(2)} C0(){}", p659),
    ("..vec![widget! { L0 }] C0 {  }", "L0() C0(){}", p660),
    ("..{ s(1) } C0 {  }", "S(0) C0(){}", p661),
    ("..match a { _ => s(1) } C0 {  }", "S(0) C0(){}", p662),
    ("C0 {  } C0 {  }", "C0(){} C0(){}", p663),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  } C0 {  }", "C2(\"q\"|7).n=true.id=\"q\"{} C0(){}", p664),
    ("L0 C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) {  }", "L0() C2((1, 2)|7).n=\"7,2\".id=(1, 2){}", p665),
    ("L0() C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  }", "L0() C2(1|7).n=\"s\".id=1{}", p666),
    ("L1(s(2).len()) C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  }", "L1(2) C2(8|true).n=Some(1).id=8{}", p667),
    ("L1(\"x\".to_string(), id: b'c') C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  }", "L1(\"x\").id=99 C2(2147483647|tick).n=[7, 7].id=2147483647{}", p668),
    ("L0(classes: P { x: a }.x, id: <i32>::MIN) C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  }", "L0().classes=7.id=-2147483648 C2(\"q\"|7).n=true.id=\"q\"{}", p669),
    ("L2(1, -1, n: \"a: b\",) C2(a, a + 2 * 3, n: m::X, id: a) {  }", "L2(1|-1).n=\"a: b\" C2(7|13).n=5.id=7{}", p670),
    ("F1(|v: i32| v + 1, n: m::f(1, 2)) C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  }", "F1(11).n=(1, 2) C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{}", p671),
    ("..v C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  }", "V() C2(1|7).n=\"s\".id=1{}", p672),
    ("..s(2) C2(s(2).len(), &a, n: !true, id: s(2).len()) {  }", "S(0) S(1) C2(2|7).n=false.id=2{}", p673),
    ("..s(0) C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  }", "C2(8|true).n=Some(1).id=8{}", p674),
    ("..s(2).into_iter().rev() C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) {  }", "S(1) S(0) C2(\"x\"|99).n=1..3.id=\"x\"{}", p675),
    ("..ui! { L1(1) L0 } C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  }", "L1(1) L0() C2(2147483647|tick).n=[7, 7].id=2147483647{}", p676),
    ("..if a > 3 { s(1) } else { s(0) } C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  }", "S(0) C2(7|-2147483648).n=7.id=7{}", p677),
    ("..(0..2).map(|i| widget! { L1(i, n: a) }) C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  }", "L1(0).n=7 L1(1).n=7 C2(\"q\"|7).n=true.id=\"q\"{}", p678),
    ("..Some(widget! { C0 { L1(2) } }) C2(1, -1, n: \"a: b\", id: 1) {  }", "C0(){L1(2)} C2(1|-1).n=\"a: b\".id=1{}", p679),
    ("..vec![widget! { L0 }] C2(a, a + 2 * 3, n: m::X, id: a) {  }", "L0() C2(7|13).n=5.id=7{}", p680),
    ("..{ s(1) } C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) {  }", "S(0) C2((1, 2)|7).n=\"7,2\".id=(1, 2){}", p681),
    ("..match a { _ => s(1) } C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  }", "S(0) C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{}", p682),
    ("C0 {  } C2(s(2).len(), &a, n: !true, id: s(2).len()) {  }", "C0(){} C2(2|7).n=false.id=2{}", p683),
    ("C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) {  }", "C2(8|true).n=Some(1).id=8{} C2(\"x\"|99).n=1..3.id=\"x\"{}", p684),
    ("C0 { L0 }", "C0(){L0()}", p685),
    ("C0 { L0() }", "C0(){L0()}", p686),
    ("C0 { L1(a) }", "C0(){L1(7)}", p687),
    ("C0 { L1([1, 2], id: (1, \"t\")) }", "C0(){L1([1, 2]).id=(1, \"t\")}", p688),
    ("C0 { L0(classes: s(2).len(), id: &a) }", "C0(){L0().classes=2.id=7}", p689),
    ("C0 { L2(\"x\".to_string(), b'c', n: 1..3,) }", "C0(){L2(\"x\"|99).n=1..3}", p690),
    ("C0 { F1(|v: i32| v + 1, n: P { x: a }.x) }", "C0(){F1(11).n=7}", p691),
    ("C0 { ..v }", "C0(){V()}", p692),
    ("C0 { ..s(2) }", "C0(){S(0) S(1)}", p693),
    ("C0 { ..s(0) }", "C0(){}", p694),
    ("C0 { ..s(2).into_iter().rev() }", "C0(){S(1) S(0)}", p695),
    ("C0 { ..ui! { L1(1) L0 } }", "C0(){L1(1) L0()}", p696),
    ("C0 { ..if a > 3 { s(1) } else { s(0) } }", "C0(){S(0)}", p697),
    ("C0 { ..(0..2).map(|i| widget! { L1(i, n: a) }) }", "C0(){L1(0).n=7 L1(1).n=7}", p698),
    ("C0 { ..Some(widget! { C0 { L1(2) } }) }", "C0(){C0(){L1(2)}}", p699),
    ("C0 { ..vec![widget! { L0 }] }", "C0(){L0()}", p700),
    ("C0 { ..{ s(1) } }", "C0(){S(0)}", p701),
    ("C0 { ..match a { _ => s(1) } }", "C0(){S(0)}", p702),
    ("C0 { C0 {  } }", "C0(){C0(){}}", p703),
    ("C0 { C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) {  } }", "C0(){C2((1, 2)|7).n=\"7,2\".id=(1, 2){}}", p704),
    ("C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 }", "C2(2|7).n=false.id=2{L0()}", p705),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L0() }", "C2(\"x\"|99).n=1..3.id=\"x\"{L0()}", p706),
    ("C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L1(i32::MAX) }", "C2(7|-2147483648).n=7.id=7{L1(2147483647)}", p707),
    ("C2(1, -1, n: \"a: b\", id: 1) { L1(r#\"q\"#, id: *&a) }", "C2(1|-1).n=\"a: b\".id=1{L1(\"q\").id=7}", p708),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { L0(classes: a, id: a + 2 * 3) }", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){L0().classes=7.id=13}", p709),
    ("C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { L2([1, 2], (1, \"t\"), n: P { x: 1 },) }", "C2(1|7).n=\"s\".id=1{L2([1, 2]|(1, \"t\")).n=P { x: 1 }}", p710),
    ("C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { F1(|v: i32| v + 1, n: s(2).len()) }", "C2(8|true).n=Some(1).id=8{F1(11).n=2}", p711),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { ..v }", "C2(\"x\"|99).n=1..3.id=\"x\"{V()}", p712),
    ("C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { ..s(2) }", "C2(2147483647|tick).n=[7, 7].id=2147483647{S(0) S(1)}", p713),
    ("C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { ..s(0) }", "C2(7|-2147483648).n=7.id=7{}", p714),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { ..s(2).into_iter().rev() }", "C2(\"q\"|7).n=true.id=\"q\"{S(1) S(0)}", p715),
    ("C2(1, -1, n: \"a: b\", id: 1) { ..ui! { L1(1) L0 } }", "C2(1|-1).n=\"a: b\".id=1{L1(1) L0()}", p716),
    ("C2(a, a + 2 * 3, n: m::X, id: a) { ..if a > 3 { s(1) } else { s(0) } }", "C2(7|13).n=5.id=7{S(0)}", p717),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { ..(0..2).map(|i| widget! { L1(i, n: a) }) }", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){L1(0).n=7 L1(1).n=7}", p718),
    ("C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { ..Some(widget! { C0 { L1(2) } }) }", "C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{C0(){L1(2)}}", p719),
    ("C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { ..vec![widget! { L0 }] }", "C2(1|7).n=\"s\".id=1{L0()}", p720),
    ("C2(s(2).len(), &a, n: !true, id: s(2).len()) { ..{ s(1) } }", "C2(2|7).n=false.id=2{S(0)}", p721),
    ("C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { ..match a { _ => s(1) } }", "C2(8|true).n=Some(1).id=8{S(0)}", p722),
    ("C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C0 {  } }", "C2(2147483647|tick).n=[7, 7].id=2147483647{C0(){}}", p723),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } }", "C2(\"q\"|7).n=true.id=\"q\"{C2(7|-2147483648).n=7.id=7{}}", p724),
    ("L1(1) L1(a) L1(m::f(1, 2))", "L1(1) L1(7) L1((1, 2))", p725),
    ("..s(2) L1([1, 2]) L1(if a > 3 { 1 } else { 2 })", "S(0) S(1) L1([1, 2]) L1(1)", p726),
    ("L0 L1((|v: i32| v + 1)(a)) L1(\"x\".to_string())", "L0() L1(8) L1(\"x\")", p727),
    ("C0 {  } L1(P { x: a }.x) L1(r#\"q\"#)", "C0(){} L1(7) L1(\"q\")", p728),
    ("C2(1, -1, n: \"a: b\", id: 1) {  } L1(a) L1(m::f(1, 2))", "C2(1|-1).n=\"a: b\".id=1{} L1(7) L1((1, 2))", p729),
    ("L1([1, 2]) ..s(2) L1(if a > 3 { 1 } else { 2 })", "L1([1, 2]) S(0) S(1) L1(1)", p730),
    ("..s(2) ..s(2) L1(s(2).len())", "S(0) S(1) S(0) S(1) L1(2)", p731),
    ("L0 ..s(2) L1(\"x\".to_string())", "L0() S(0) S(1) L1(\"x\")", p732),
    ("C0 {  } ..s(2) L1(P { x: a }.x)", "C0(){} S(0) S(1) L1(7)", p733),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  } ..s(2) L1(1)", "C2(\"q\"|7).n=true.id=\"q\"{} S(0) S(1) L1(1)", p734),
    ("L1(a) L0 L1([1, 2])", "L1(7) L0() L1([1, 2])", p735),
    ("..s(2) L0 L1(s(2).len())", "S(0) S(1) L0() L1(2)", p736),
    ("L0 L0 L1(i32::MAX)", "L0() L0() L1(2147483647)", p737),
    ("C0 {  } L0 L1(1)", "C0(){} L0() L1(1)", p738),
    ("C2(a, a + 2 * 3, n: m::X, id: a) {  } L0 L1([1, 2])", "C2(7|13).n=5.id=7{} L0() L1([1, 2])", p739),
    ("L1(if a > 3 { 1 } else { 2 }) C0 {  } L1((|v: i32| v + 1)(a))", "L1(1) C0(){} L1(8)", p740),
    ("..s(2) C0 {  } L1(i32::MAX)", "S(0) S(1) C0(){} L1(2147483647)", p741),
    ("L0 C0 {  } L1(1)", "L0() C0(){} L1(1)", p742),
    ("C0 {  } C0 {  } L1([1, 2])", "C0(){} C0(){} L1([1, 2])", p743),
    ("C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } C0 {  } L1((|v: i32| v + 1)(a))", "C2(1|7).n=\"s\".id=1{} C0(){} L1(8)", p744),
    ("L1(\"x\".to_string()) C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } L1(P { x: a }.x)", "L1(\"x\") C2(2147483647|tick).n=[7, 7].id=2147483647{} L1(7)", p745),
    ("..s(2) C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  } L1(1)", "S(0) S(1) C2(\"q\"|7).n=true.id=\"q\"{} L1(1)", p746),
    ("L0 C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) {  } L1([1, 2])", "L0() C2((1, 2)|7).n=\"7,2\".id=(1, 2){} L1([1, 2])", p747),
    ("C0 {  } C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } L1((|v: i32| v + 1)(a))", "C0(){} C2(2|7).n=false.id=2{} L1(8)", p748),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) {  } C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } L1(P { x: a }.x)", "C2(\"x\"|99).n=1..3.id=\"x\"{} C2(2147483647|tick).n=[7, 7].id=2147483647{} L1(7)", p749),
    ("L1(r#\"q\"#) L1(1) ..s(2)", "L1(\"q\") L1(1) S(0) S(1)", p750),
    ("..s(2) L1(a) ..s(2)", "S(0) S(1) L1(7) S(0) S(1)", p751),
    ("L0 L1([1, 2]) ..s(2)", "L0() L1([1, 2]) S(0) S(1)", p752),
    ("C0 {  } L1(s(2).len()) ..s(2)", "C0(){} L1(2) S(0) S(1)", p753),
    ("C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } L1(\"x\".to_string()) ..s(2)", "C2(8|true).n=Some(1).id=8{} L1(\"x\") S(0) S(1)", p754),
    ("L1(i32::MAX) ..s(2) ..s(2)", "L1(2147483647) S(0) S(1) S(0) S(1)", p755),
    ("..s(2) ..s(2) ..s(2)", "S(0) S(1) S(0) S(1) S(0) S(1)", p756),
    ("L0 ..s(2) ..s(2)", "L0() S(0) S(1) S(0) S(1)", p757),
    ("C0 {  } ..s(2) ..s(2)", "C0(){} S(0) S(1) S(0) S(1)", p758),
    ("C2(1, -1, n: \"a: b\", id: 1) {  } ..s(2) ..s(2)", "C2(1|-1).n=\"a: b\".id=1{} S(0) S(1) S(0) S(1)", p759),
    ("L1(a) L0 ..s(2)", "L1(7) L0() S(0) S(1)", p760),
    ("..s(2) L0 ..s(2)", "S(0) S(1) L0() S(0) S(1)", p761),
    ("L0 L0 ..s(2)", "L0() L0() S(0) S(1)", p762),
    ("C0 {  } L0 ..s(2)", "C0(){} L0() S(0) S(1)", p763),
    ("C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } L0 ..s(2)", "C2(2147483647|tick).n=[7, 7].id=2147483647{} L0() S(0) S(1)", p764),
    ("L1(r#\"q\"#) C0 {  } ..s(2)", "L1(\"q\") C0(){} S(0) S(1)", p765),
    ("..s(2) C0 {  } ..s(2)", "S(0) S(1) C0(){} S(0) S(1)", p766),
    ("L0 C0 {  } ..s(2)", "L0() C0(){} S(0) S(1)", p767),
    ("C0 {  } C0 {  } ..s(2)", "C0(){} C0(){} S(0) S(1)", p768),
    ("C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } C0 {  } ..s(2)", "C2(8|true).n=Some(1).id=8{} C0(){} S(0) S(1)", p769),
    ("L1(i32::MAX) C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } ..s(2)", "L1(2147483647) C2(7|-2147483648).n=7.id=7{} S(0) S(1)", p770),
    ("..s(2) C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  } ..s(2)", "S(0) S(1) C2(\"q\"|7).n=true.id=\"q\"{} S(0) S(1)", p771),
    ("L0 C2(a, a + 2 * 3, n: m::X, id: a) {  } ..s(2)", "L0() C2(7|13).n=5.id=7{} S(0) S(1)", p772),
    ("C0 {  } C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  } ..s(2)", "C0(){} C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{} S(0) S(1)", p773),
    ("C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } ..s(2)", "C2(1|7).n=\"s\".id=1{} C2(2|7).n=false.id=2{} S(0) S(1)", p774),
    ("L1((|v: i32| v + 1)(a)) L1(\"x\".to_string()) L0", "L1(8) L1(\"x\") L0()", p775),
    ("..s(2) L1(P { x: a }.x) L0", "S(0) S(1) L1(7) L0()", p776),
    ("L0 L1(a) L0", "L0() L1(7) L0()", p777),
    ("C0 {  } L1(if a > 3 { 1 } else { 2 }) L0", "C0(){} L1(1) L0()", p778),
    ("C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } L1(\"x\".to_string()) L0", "C2(8|true).n=Some(1).id=8{} L1(\"x\") L0()", p779),
    ("L1(P { x: a }.x) ..s(2) L0", "L1(7) S(0) S(1) L0()", p780),
    ("..s(2) ..s(2) L0", "S(0) S(1) S(0) S(1) L0()", p781),
    ("L0 ..s(2) L0", "L0() S(0) S(1) L0()", p782),
    ("C0 {  } ..s(2) L0", "C0(){} S(0) S(1) L0()", p783),
    ("C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } ..s(2) L0", "C2(2|7).n=false.id=2{} S(0) S(1) L0()", p784),
    ("L1(\"x\".to_string()) L0 L0", "L1(\"x\") L0() L0()", p785),
    ("..s(2) L0 L0", "S(0) S(1) L0() L0()", p786),
    ("L0 L0 L0", "L0() L0() L0()", p787),
    ("C0 {  } L0 L0", "C0(){} L0() L0()", p788),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) {  } L0 L0", "C2(\"x\"|99).n=1..3.id=\"x\"{} L0() L0()", p789),
    ("L1(r#\"q\"#) C0 {  } L0", "L1(\"q\") C0(){} L0()", p790),
    ("..s(2) C0 {  } L0", "S(0) S(1) C0(){} L0()", p791),
    ("L0 C0 {  } L0", "L0() C0(){} L0()", p792),
    ("C0 {  } C0 {  } L0", "C0(){} C0(){} L0()", p793),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  } C0 {  } L0", "C2(\"q\"|7).n=true.id=\"q\"{} C0(){} L0()", p794),
    ("L1(m::f(1, 2)) C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  } L0", "L1((1, 2)) C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{} L0()", p795),
    ("..s(2) C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } L0", "S(0) S(1) C2(2|7).n=false.id=2{} L0()", p796),
    ("L0 C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } L0", "L0() C2(2147483647|tick).n=[7, 7].id=2147483647{} L0()", p797),
    ("C0 {  } C2(1, -1, n: \"a: b\", id: 1) {  } L0", "C0(){} C2(1|-1).n=\"a: b\".id=1{} L0()", p798),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) {  } C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  } L0", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){} C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{} L0()", p799),
    ("L1(s(2).len()) L1((|v: i32| v + 1)(a)) C0 {  }", "L1(2) L1(8) C0(){}", p800),
    ("..s(2) L1(i32::MAX) C0 {  }", "S(0) S(1) L1(2147483647) C0(){}", p801),
    ("L0 L1(1) C0 {  }", "L0() L1(1) C0(){}", p802),
    ("C0 {  } L1([1, 2]) C0 {  }", "C0(){} L1([1, 2]) C0(){}", p803),
    ("C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } L1((|v: i32| v + 1)(a)) C0 {  }", "C2(2|7).n=false.id=2{} L1(8) C0(){}", p804),
    ("L1(i32::MAX) ..s(2) C0 {  }", "L1(2147483647) S(0) S(1) C0(){}", p805),
    ("..s(2) ..s(2) C0 {  }", "S(0) S(1) S(0) S(1) C0(){}", p806),
    ("L0 ..s(2) C0 {  }", "L0() S(0) S(1) C0(){}", p807),
    ("C0 {  } ..s(2) C0 {  }", "C0(){} S(0) S(1) C0(){}", p808),
    ("C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } ..s(2) C0 {  }", "C2(1|7).n=\"s\".id=1{} S(0) S(1) C0(){}", p809),
    ("L1((|v: i32| v + 1)(a)) L0 C0 {  }", "L1(8) L0() C0(){}", p810),
    ("..s(2) L0 C0 {  }", "S(0) S(1) L0() C0(){}", p811),
    ("L0 L0 C0 {  }", "L0() L0() C0(){}", p812),
    ("C0 {  } L0 C0 {  }", "C0(){} L0() C0(){}", p813),
    ("C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } L0 C0 {  }", "C2(8|true).n=Some(1).id=8{} L0() C0(){}", p814),
    ("L1(P { x: a }.x) C0 {  } C0 {  }", "L1(7) C0(){} C0(){}", p815),
    ("..s(2) C0 {  } C0 {  }", "S(0) S(1) C0(){} C0(){}", p816),
    ("L0 C0 {  } C0 {  }", "L0() C0(){} C0(){}", p817),
    ("C0 {  } C0 {  } C0 {  }", "C0(){} C0(){} C0(){}", p818),
    ("C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } C0 {  } C0 {  }", "C2(7|-2147483648).n=7.id=7{} C0(){} C0(){}", p819),
    ("L1(a) C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) {  } C0 {  }", "L1(7) C2((1, 2)|7).n=\"7,2\".id=(1, 2){} C0(){}", p820),
    ("..s(2) C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } C0 {  }", "S(0) S(1) C2(1|7).n=\"s\".id=1{} C0(){}", p821),
    ("L0 C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) {  } C0 {  }", "L0() C2(\"x\"|99).n=1..3.id=\"x\"{} C0(){}", p822),
    ("C0 {  } C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  } C0 {  }", "C0(){} C2(\"q\"|7).n=true.id=\"q\"{} C0(){}", p823),
    ("C2(a, a + 2 * 3, n: m::X, id: a) {  } C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) {  } C0 {  }", "C2(7|13).n=5.id=7{} C2((1, 2)|7).n=\"7,2\".id=(1, 2){} C0(){}", p824),
    ("L1(if a > 3 { 1 } else { 2 }) L1(s(2).len()) C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  }", "L1(1) L1(2) C2(8|true).n=Some(1).id=8{}", p825),
    ("..s(2) L1(\"x\".to_string()) C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  }", "S(0) S(1) L1(\"x\") C2(2147483647|tick).n=[7, 7].id=2147483647{}", p826),
    ("L0 L1(r#\"q\"#) C2(1, -1, n: \"a: b\", id: 1) {  }", "L0() L1(\"q\") C2(1|-1).n=\"a: b\".id=1{}", p827),
    ("C0 {  } L1(m::f(1, 2)) C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  }", "C0(){} L1((1, 2)) C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{}", p828),
    ("C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } L1(s(2).len()) C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  }", "C2(1|7).n=\"s\".id=1{} L1(2) C2(8|true).n=Some(1).id=8{}", p829),
    ("L1(\"x\".to_string()) ..s(2) C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  }", "L1(\"x\") S(0) S(1) C2(2147483647|tick).n=[7, 7].id=2147483647{}", p830),
    ("..s(2) ..s(2) C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  }", "S(0) S(1) S(0) S(1) C2(7|-2147483648).n=7.id=7{}", p831),
    ("L0 ..s(2) C2(1, -1, n: \"a: b\", id: 1) {  }", "L0() S(0) S(1) C2(1|-1).n=\"a: b\".id=1{}", p832),
    ("C0 {  } ..s(2) C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) {  }", "C0(){} S(0) S(1) C2((1, 2)|7).n=\"7,2\".id=(1, 2){}", p833),
    ("C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  } ..s(2) C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  }", "C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{} S(0) S(1) C2(1|7).n=\"s\".id=1{}", p834),
    ("L1(s(2).len()) L0 C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) {  }", "L1(2) L0() C2(\"x\"|99).n=1..3.id=\"x\"{}", p835),
    ("..s(2) L0 C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  }", "S(0) S(1) L0() C2(7|-2147483648).n=7.id=7{}", p836),
    ("L0 L0 C2(a, a + 2 * 3, n: m::X, id: a) {  }", "L0() L0() C2(7|13).n=5.id=7{}", p837),
    ("C0 {  } L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  }", "C0(){} L0() C2(1|7).n=\"s\".id=1{}", p838),
    ("C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } L0 C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) {  }", "C2(2|7).n=false.id=2{} L0() C2(\"x\"|99).n=1..3.id=\"x\"{}", p839),
    ("L1(i32::MAX) C0 {  } C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  }", "L1(2147483647) C0(){} C2(\"q\"|7).n=true.id=\"q\"{}", p840),
    ("..s(2) C0 {  } C2(a, a + 2 * 3, n: m::X, id: a) {  }", "S(0) S(1) C0(){} C2(7|13).n=5.id=7{}", p841),
    ("L0 C0 {  } C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  }", "L0() C0(){} C2(1|7).n=\"s\".id=1{}", p842),
    ("C0 {  } C0 {  } C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) {  }", "C0(){} C0(){} C2(\"x\"|99).n=1..3.id=\"x\"{}", p843),
    ("C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } C0 {  } C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  }", "C2(2147483647|tick).n=[7, 7].id=2147483647{} C0(){} C2(\"q\"|7).n=true.id=\"q\"{}", p844),
    ("L1(1) C2(a, a + 2 * 3, n: m::X, id: a) {  } C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) {  }", "L1(1) C2(7|13).n=5.id=7{} C2((1, 2)|7).n=\"7,2\".id=(1, 2){}", p845),
    ("..s(2) C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  } C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  }", "S(0) S(1) C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{} C2(1|7).n=\"s\".id=1{}", p846),
    ("L0 C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) {  }", "L0() C2(8|true).n=Some(1).id=8{} C2(\"x\"|99).n=1..3.id=\"x\"{}", p847),
    ("C0 {  } C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  }", "C0(){} C2(7|-2147483648).n=7.id=7{} C2(\"q\"|7).n=true.id=\"q\"{}", p848),
    ("C2(1, -1, n: \"a: b\", id: 1) {  } C2(a, a + 2 * 3, n: m::X, id: a) {  } C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) {  }", "C2(1|-1).n=\"a: b\".id=1{} C2(7|13).n=5.id=7{} C2((1, 2)|7).n=\"7,2\".id=(1, 2){}", p849),
    ("L1([1, 2]) C0 { L1(if a > 3 { 1 } else { 2 }) }", "L1([1, 2]) C0(){L1(1)}", p850),
    ("..s(2) C0 { L1((|v: i32| v + 1)(a)) }", "S(0) S(1) C0(){L1(8)}", p851),
    ("L0 C0 { L1(P { x: a }.x) }", "L0() C0(){L1(7)}", p852),
    ("C0 {  } C0 { L1(a) }", "C0(){} C0(){L1(7)}", p853),
    ("C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  } C0 { L1(if a > 3 { 1 } else { 2 }) }", "C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{} C0(){L1(1)}", p854),
    ("L1((|v: i32| v + 1)(a)) C0 { ..s(2) }", "L1(8) C0(){S(0) S(1)}", p855),
    ("..s(2) C0 { ..s(2) }", "S(0) S(1) C0(){S(0) S(1)}", p856),
    ("L0 C0 { ..s(2) }", "L0() C0(){S(0) S(1)}", p857),
    ("C0 {  } C0 { ..s(2) }", "C0(){} C0(){S(0) S(1)}", p858),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) {  } C0 { ..s(2) }", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){} C0(){S(0) S(1)}", p859),
    ("L1(if a > 3 { 1 } else { 2 }) C0 { L0 }", "L1(1) C0(){L0()}", p860),
    ("..s(2) C0 { L0 }", "S(0) S(1) C0(){L0()}", p861),
    ("L0 C0 { L0 }", "L0() C0(){L0()}", p862),
    ("C0 {  } C0 { L0 }", "C0(){} C0(){L0()}", p863),
    ("C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } C0 { L0 }", "C2(1|7).n=\"s\".id=1{} C0(){L0()}", p864),
    ("L1(\"x\".to_string()) C0 { C0 {  } }", "L1(\"x\") C0(){C0(){}}", p865),
    ("..s(2) C0 { C0 {  } }", "S(0) S(1) C0(){C0(){}}", p866),
    ("L0 C0 { C0 {  } }", "L0() C0(){C0(){}}", p867),
    ("C0 {  } C0 { C0 {  } }", "C0(){} C0(){C0(){}}", p868),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) {  } C0 { C0 {  } }", "C2(\"x\"|99).n=1..3.id=\"x\"{} C0(){C0(){}}", p869),
    ("L1(r#\"q\"#) C0 { C2(1, -1, n: \"a: b\", id: 1) {  } }", "L1(\"q\") C0(){C2(1|-1).n=\"a: b\".id=1{}}", p870),
    ("..s(2) C0 { C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) {  } }", "S(0) S(1) C0(){C2((1, 2)|7).n=\"7,2\".id=(1, 2){}}", p871),
    ("L0 C0 { C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } }", "L0() C0(){C2(2|7).n=false.id=2{}}", p872),
    ("C0 {  } C0 { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } }", "C0(){} C0(){C2(2147483647|tick).n=[7, 7].id=2147483647{}}", p873),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  } C0 { C2(1, -1, n: \"a: b\", id: 1) {  } }", "C2(\"q\"|7).n=true.id=\"q\"{} C0(){C2(1|-1).n=\"a: b\".id=1{}}", p874),
    ("L1(m::f(1, 2)) C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { L1([1, 2]) }", "L1((1, 2)) C2(1|7).n=\"s\".id=1{L1([1, 2])}", p875),
    ("..s(2) C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L1(s(2).len()) }", "S(0) S(1) C2(8|true).n=Some(1).id=8{L1(2)}", p876),
    ("L0 C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L1(i32::MAX) }", "L0() C2(7|-2147483648).n=7.id=7{L1(2147483647)}", p877),
    ("C0 {  } C2(a, a + 2 * 3, n: m::X, id: a) { L1(1) }", "C0(){} C2(7|13).n=5.id=7{L1(1)}", p878),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) {  } C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { L1([1, 2]) }", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){} C2(1|7).n=\"s\".id=1{L1([1, 2])}", p879),
    ("L1(s(2).len()) C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { ..s(2) }", "L1(2) C2(8|true).n=Some(1).id=8{S(0) S(1)}", p880),
    ("..s(2) C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { ..s(2) }", "S(0) S(1) C2(\"x\"|99).n=1..3.id=\"x\"{S(0) S(1)}", p881),
    ("L0 C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { ..s(2) }", "L0() C2(7|-2147483648).n=7.id=7{S(0) S(1)}", p882),
    ("C0 {  } C2(1, -1, n: \"a: b\", id: 1) { ..s(2) }", "C0(){} C2(1|-1).n=\"a: b\".id=1{S(0) S(1)}", p883),
    ("C2(a, a + 2 * 3, n: m::X, id: a) {  } C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { ..s(2) }", "C2(7|13).n=5.id=7{} C2((1, 2)|7).n=\"7,2\".id=(1, 2){S(0) S(1)}", p884),
    ("L1([1, 2]) C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 }", "L1([1, 2]) C2(2|7).n=false.id=2{L0()}", p885),
    ("..s(2) C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L0 }", "S(0) S(1) C2(\"x\"|99).n=1..3.id=\"x\"{L0()}", p886),
    ("L0 C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { L0 }", "L0() C2(\"q\"|7).n=true.id=\"q\"{L0()}", p887),
    ("C0 {  } C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { L0 }", "C0(){} C2((1, 2)|7).n=\"7,2\".id=(1, 2){L0()}", p888),
    ("C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  } C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 }", "C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{} C2(2|7).n=false.id=2{L0()}", p889),
    ("L1((|v: i32| v + 1)(a)) C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C0 {  } }", "L1(8) C2(2147483647|tick).n=[7, 7].id=2147483647{C0(){}}", p890),
    ("..s(2) C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C0 {  } }", "S(0) S(1) C2(\"q\"|7).n=true.id=\"q\"{C0(){}}", p891),
    ("L0 C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C0 {  } }", "L0() C2((1, 2)|7).n=\"7,2\".id=(1, 2){C0(){}}", p892),
    ("C0 {  } C2(s(2).len(), &a, n: !true, id: s(2).len()) { C0 {  } }", "C0(){} C2(2|7).n=false.id=2{C0(){}}", p893),
    ("C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C0 {  } }", "C2(8|true).n=Some(1).id=8{} C2(2147483647|tick).n=[7, 7].id=2147483647{C0(){}}", p894),
    ("L1(P { x: a }.x) C2(1, -1, n: \"a: b\", id: 1) { C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  } }", "L1(7) C2(1|-1).n=\"a: b\".id=1{C2(\"q\"|7).n=true.id=\"q\"{}}", p895),
    ("..s(2) C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) {  } }", "S(0) S(1) C2((1, 2)|7).n=\"7,2\".id=(1, 2){C2(7|13).n=5.id=7{}}", p896),
    ("L0 C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } }", "L0() C2(2|7).n=false.id=2{C2(1|7).n=\"s\".id=1{}}", p897),
    ("C0 {  } C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) {  } }", "C0(){} C2(2147483647|tick).n=[7, 7].id=2147483647{C2(\"x\"|99).n=1..3.id=\"x\"{}}", p898),
    ("C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } C2(1, -1, n: \"a: b\", id: 1) { C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  } }", "C2(7|-2147483648).n=7.id=7{} C2(1|-1).n=\"a: b\".id=1{C2(\"q\"|7).n=true.id=\"q\"{}}", p899),
    ("C0 { L1(a) } L1([1, 2])", "C0(){L1(7)} L1([1, 2])", p900),
    ("C0 { ..s(2) } L1(s(2).len())", "C0(){S(0) S(1)} L1(2)", p901),
    ("C0 { L0 } L1(i32::MAX)", "C0(){L0()} L1(2147483647)", p902),
    ("C0 { C0 {  } } L1(1)", "C0(){C0(){}} L1(1)", p903),
    ("C0 { C2(a, a + 2 * 3, n: m::X, id: a) {  } } L1([1, 2])", "C0(){C2(7|13).n=5.id=7{}} L1([1, 2])", p904),
    ("C2(s(2).len(), &a, n: !true, id: s(2).len()) { L1(if a > 3 { 1 } else { 2 }) } L1((|v: i32| v + 1)(a))", "C2(2|7).n=false.id=2{L1(1)} L1(8)", p905),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { ..s(2) } L1(i32::MAX)", "C2(\"x\"|99).n=1..3.id=\"x\"{S(0) S(1)} L1(2147483647)", p906),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { L0 } L1(1)", "C2(\"q\"|7).n=true.id=\"q\"{L0()} L1(1)", p907),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C0 {  } } L1([1, 2])", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){C0(){}} L1([1, 2])", p908),
    ("C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } } L1((|v: i32| v + 1)(a))", "C2(2|7).n=false.id=2{C2(1|7).n=\"s\".id=1{}} L1(8)", p909),
    ("C0 { L1(\"x\".to_string()) } ..s(2)", "C0(){L1(\"x\")} S(0) S(1)", p910),
    ("C0 { ..s(2) } ..s(2)", "C0(){S(0) S(1)} S(0) S(1)", p911),
    ("C0 { L0 } ..s(2)", "C0(){L0()} S(0) S(1)", p912),
    ("C0 { C0 {  } } ..s(2)", "C0(){C0(){}} S(0) S(1)", p913),
    ("C0 { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  } } ..s(2)", "C0(){C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{}} S(0) S(1)", p914),
    ("C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L1(s(2).len()) } ..s(2)", "C2(8|true).n=Some(1).id=8{L1(2)} S(0) S(1)", p915),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { ..s(2) } ..s(2)", "C2(\"x\"|99).n=1..3.id=\"x\"{S(0) S(1)} S(0) S(1)", p916),
    ("C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 } ..s(2)", "C2(7|-2147483648).n=7.id=7{L0()} S(0) S(1)", p917),
    ("C2(1, -1, n: \"a: b\", id: 1) { C0 {  } } ..s(2)", "C2(1|-1).n=\"a: b\".id=1{C0(){}} S(0) S(1)", p918),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) {  } } ..s(2)", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){C2(7|13).n=5.id=7{}} S(0) S(1)", p919),
    ("C0 { L1([1, 2]) } L0", "C0(){L1([1, 2])} L0()", p920),
    ("C0 { ..s(2) } L0", "C0(){S(0) S(1)} L0()", p921),
    ("C0 { L0 } L0", "C0(){L0()} L0()", p922),
    ("C0 { C0 {  } } L0", "C0(){C0(){}} L0()", p923),
    ("C0 { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  } } L0", "C0(){C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{}} L0()", p924),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L1((|v: i32| v + 1)(a)) } L0", "C2(\"x\"|99).n=1..3.id=\"x\"{L1(8)} L0()", p925),
    ("C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { ..s(2) } L0", "C2(7|-2147483648).n=7.id=7{S(0) S(1)} L0()", p926),
    ("C2(a, a + 2 * 3, n: m::X, id: a) { L0 } L0", "C2(7|13).n=5.id=7{L0()} L0()", p927),
    ("C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { C0 {  } } L0", "C2(1|7).n=\"s\".id=1{C0(){}} L0()", p928),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } } L0", "C2(\"x\"|99).n=1..3.id=\"x\"{C2(8|true).n=Some(1).id=8{}} L0()", p929),
    ("C0 { L1(P { x: a }.x) } C0 {  }", "C0(){L1(7)} C0(){}", p930),
    ("C0 { ..s(2) } C0 {  }", "C0(){S(0) S(1)} C0(){}", p931),
    ("C0 { L0 } C0 {  }", "C0(){L0()} C0(){}", p932),
    ("C0 { C0 {  } } C0 {  }", "C0(){C0(){}} C0(){}", p933),
    ("C0 { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } } C0 {  }", "C0(){C2(7|-2147483648).n=7.id=7{}} C0(){}", p934),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { L1(a) } C0 {  }", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){L1(7)} C0(){}", p935),
    ("C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { ..s(2) } C0 {  }", "C2(1|7).n=\"s\".id=1{S(0) S(1)} C0(){}", p936),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L0 } C0 {  }", "C2(\"x\"|99).n=1..3.id=\"x\"{L0()} C0(){}", p937),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C0 {  } } C0 {  }", "C2(\"q\"|7).n=true.id=\"q\"{C0(){}} C0(){}", p938),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) {  } } C0 {  }", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){C2(7|13).n=5.id=7{}} C0(){}", p939),
    ("C0 { L1(if a > 3 { 1 } else { 2 }) } C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  }", "C0(){L1(1)} C2(8|true).n=Some(1).id=8{}", p940),
    ("C0 { ..s(2) } C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  }", "C0(){S(0) S(1)} C2(2147483647|tick).n=[7, 7].id=2147483647{}", p941),
    ("C0 { L0 } C2(1, -1, n: \"a: b\", id: 1) {  }", "C0(){L0()} C2(1|-1).n=\"a: b\".id=1{}", p942),
    ("C0 { C0 {  } } C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  }", "C0(){C0(){}} C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{}", p943),
    ("C0 { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } } C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  }", "C0(){C2(1|7).n=\"s\".id=1{}} C2(8|true).n=Some(1).id=8{}", p944),
    ("C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L1(\"x\".to_string()) } C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  }", "C2(2147483647|tick).n=[7, 7].id=2147483647{L1(\"x\")} C2(7|-2147483648).n=7.id=7{}", p945),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { ..s(2) } C2(1, -1, n: \"a: b\", id: 1) {  }", "C2(\"q\"|7).n=true.id=\"q\"{S(0) S(1)} C2(1|-1).n=\"a: b\".id=1{}", p946),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { L0 } C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  }", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){L0()} C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{}", p947),
    ("C2(s(2).len(), &a, n: !true, id: s(2).len()) { C0 {  } } C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  }", "C2(2|7).n=false.id=2{C0(){}} C2(8|true).n=Some(1).id=8{}", p948),
    ("C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) {  } } C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  }", "C2(2147483647|tick).n=[7, 7].id=2147483647{C2(\"x\"|99).n=1..3.id=\"x\"{}} C2(7|-2147483648).n=7.id=7{}", p949),
    ("C0 { L1(r#\"q\"#) L1(1) }", "C0(){L1(\"q\") L1(1)}", p950),
    ("C0 { ..s(2) L1(m::f(1, 2)) }", "C0(){S(0) S(1) L1((1, 2))}", p951),
    ("C0 { L0 L1(s(2).len()) }", "C0(){L0() L1(2)}", p952),
    ("C0 { C0 {  } L1(i32::MAX) }", "C0(){C0(){} L1(2147483647)}", p953),
    ("C0 { C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  } L1(1) }", "C0(){C2(\"q\"|7).n=true.id=\"q\"{} L1(1)}", p954),
    ("C0 { L1(m::f(1, 2)) ..s(2) }", "C0(){L1((1, 2)) S(0) S(1)}", p955),
    ("C0 { ..s(2) ..s(2) }", "C0(){S(0) S(1) S(0) S(1)}", p956),
    ("C0 { L0 ..s(2) }", "C0(){L0() S(0) S(1)}", p957),
    ("C0 { C0 {  } ..s(2) }", "C0(){C0(){} S(0) S(1)}", p958),
    ("C0 { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } ..s(2) }", "C0(){C2(7|-2147483648).n=7.id=7{} S(0) S(1)}", p959),
    ("C0 { L1(1) L0 }", "C0(){L1(1) L0()}", p960),
    ("C0 { ..s(2) L0 }", "C0(){S(0) S(1) L0()}", p961),
    ("C0 { L0 L0 }", "C0(){L0() L0()}", p962),
    ("C0 { C0 {  } L0 }", "C0(){C0(){} L0()}", p963),
    ("C0 { C2(1, -1, n: \"a: b\", id: 1) {  } L0 }", "C0(){C2(1|-1).n=\"a: b\".id=1{} L0()}", p964),
    ("C0 { L1([1, 2]) C0 {  } }", "C0(){L1([1, 2]) C0(){}}", p965),
    ("C0 { ..s(2) C0 {  } }", "C0(){S(0) S(1) C0(){}}", p966),
    ("C0 { L0 C0 {  } }", "C0(){L0() C0(){}}", p967),
    ("C0 { C0 {  } C0 {  } }", "C0(){C0(){} C0(){}}", p968),
    ("C0 { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  } C0 {  } }", "C0(){C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{} C0(){}}", p969),
    ("C0 { L1((|v: i32| v + 1)(a)) C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) {  } }", "C0(){L1(8) C2(\"x\"|99).n=1..3.id=\"x\"{}}", p970),
    ("C0 { ..s(2) C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } }", "C0(){S(0) S(1) C2(7|-2147483648).n=7.id=7{}}", p971),
    ("C0 { L0 C2(a, a + 2 * 3, n: m::X, id: a) {  } }", "C0(){L0() C2(7|13).n=5.id=7{}}", p972),
    ("C0 { C0 {  } C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } }", "C0(){C0(){} C2(1|7).n=\"s\".id=1{}}", p973),
    ("C0 { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) {  } }", "C0(){C2(8|true).n=Some(1).id=8{} C2(\"x\"|99).n=1..3.id=\"x\"{}}", p974),
    ("C0 { C0 { L1(P { x: a }.x) } }", "C0(){C0(){L1(7)}}", p975),
    ("C0 { C0 { ..s(2) } }", "C0(){C0(){S(0) S(1)}}", p976),
    ("C0 { C0 { L0 } }", "C0(){C0(){L0()}}", p977),
    ("C0 { C0 { C0 {  } } }", "C0(){C0(){C0(){}}}", p978),
    ("C0 { C0 { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } } }", "C0(){C0(){C2(7|-2147483648).n=7.id=7{}}}", p979),
    ("C0 { C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { L1(a) } }", "C0(){C2((1, 2)|7).n=\"7,2\".id=(1, 2){L1(7)}}", p980),
    ("C0 { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { ..s(2) } }", "C0(){C2(1|7).n=\"s\".id=1{S(0) S(1)}}", p981),
    ("C0 { C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L0 } }", "C0(){C2(\"x\"|99).n=1..3.id=\"x\"{L0()}}", p982),
    ("C0 { C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C0 {  } } }", "C0(){C2(\"q\"|7).n=true.id=\"q\"{C0(){}}}", p983),
    ("C0 { C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) {  } } }", "C0(){C2((1, 2)|7).n=\"7,2\".id=(1, 2){C2(7|13).n=5.id=7{}}}", p984),
    ("C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L1(if a > 3 { 1 } else { 2 }) L1(s(2).len()) }", "C2(8|true).n=Some(1).id=8{L1(1) L1(2)}", p985),
    ("C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { ..s(2) L1(\"x\".to_string()) }", "C2(2147483647|tick).n=[7, 7].id=2147483647{S(0) S(1) L1(\"x\")}", p986),
    ("C2(1, -1, n: \"a: b\", id: 1) { L0 L1(r#\"q\"#) }", "C2(1|-1).n=\"a: b\".id=1{L0() L1(\"q\")}", p987),
    ("C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { C0 {  } L1(m::f(1, 2)) }", "C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{C0(){} L1((1, 2))}", p988),
    ("C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } L1(s(2).len()) }", "C2(8|true).n=Some(1).id=8{C2(1|7).n=\"s\".id=1{} L1(2)}", p989),
    ("C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L1(\"x\".to_string()) ..s(2) }", "C2(2147483647|tick).n=[7, 7].id=2147483647{L1(\"x\") S(0) S(1)}", p990),
    ("C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { ..s(2) ..s(2) }", "C2(7|-2147483648).n=7.id=7{S(0) S(1) S(0) S(1)}", p991),
    ("C2(1, -1, n: \"a: b\", id: 1) { L0 ..s(2) }", "C2(1|-1).n=\"a: b\".id=1{L0() S(0) S(1)}", p992),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C0 {  } ..s(2) }", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){C0(){} S(0) S(1)}", p993),
    ("C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  } ..s(2) }", "C2(1|7).n=\"s\".id=1{C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{} S(0) S(1)}", p994),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L1(s(2).len()) L0 }", "C2(\"x\"|99).n=1..3.id=\"x\"{L1(2) L0()}", p995),
    ("C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { ..s(2) L0 }", "C2(7|-2147483648).n=7.id=7{S(0) S(1) L0()}", p996),
    ("C2(a, a + 2 * 3, n: m::X, id: a) { L0 L0 }", "C2(7|13).n=5.id=7{L0() L0()}", p997),
    ("C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { C0 {  } L0 }", "C2(1|7).n=\"s\".id=1{C0(){} L0()}", p998),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } L0 }", "C2(\"x\"|99).n=1..3.id=\"x\"{C2(2|7).n=false.id=2{} L0()}", p999),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { L1(i32::MAX) C0 {  } }", "C2(\"q\"|7).n=true.id=\"q\"{L1(2147483647) C0(){}}", p1000),
    ("C2(a, a + 2 * 3, n: m::X, id: a) { ..s(2) C0 {  } }", "C2(7|13).n=5.id=7{S(0) S(1) C0(){}}", p1001),
    ("C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { L0 C0 {  } }", "C2(1|7).n=\"s\".id=1{L0() C0(){}}", p1002),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { C0 {  } C0 {  } }", "C2(\"x\"|99).n=1..3.id=\"x\"{C0(){} C0(){}}", p1003),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } C0 {  } }", "C2(\"q\"|7).n=true.id=\"q\"{C2(2147483647|tick).n=[7, 7].id=2147483647{} C0(){}}", p1004),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { L1(1) C2(a, a + 2 * 3, n: m::X, id: a) {  } }", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){L1(1) C2(7|13).n=5.id=7{}}", p1005),
    ("C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { ..s(2) C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  } }", "C2(1|7).n=\"s\".id=1{S(0) S(1) C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{}}", p1006),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L0 C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } }", "C2(\"x\"|99).n=1..3.id=\"x\"{L0() C2(8|true).n=Some(1).id=8{}}", p1007),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C0 {  } C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } }", "C2(\"q\"|7).n=true.id=\"q\"{C0(){} C2(7|-2147483648).n=7.id=7{}}", p1008),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C2(1, -1, n: \"a: b\", id: 1) {  } C2(a, a + 2 * 3, n: m::X, id: a) {  } }", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){C2(1|-1).n=\"a: b\".id=1{} C2(7|13).n=5.id=7{}}", p1009),
    ("C2(s(2).len(), &a, n: !true, id: s(2).len()) { C0 { L1([1, 2]) } }", "C2(2|7).n=false.id=2{C0(){L1([1, 2])}}", p1010),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { C0 { ..s(2) } }", "C2(\"x\"|99).n=1..3.id=\"x\"{C0(){S(0) S(1)}}", p1011),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C0 { L0 } }", "C2(\"q\"|7).n=true.id=\"q\"{C0(){L0()}}", p1012),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C0 { C0 {  } } }", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){C0(){C0(){}}}", p1013),
    ("C2(s(2).len(), &a, n: !true, id: s(2).len()) { C0 { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  } } }", "C2(2|7).n=false.id=2{C0(){C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{}}}", p1014),
    ("C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L1((|v: i32| v + 1)(a)) } }", "C2(2147483647|tick).n=[7, 7].id=2147483647{C2(\"x\"|99).n=1..3.id=\"x\"{L1(8)}}", p1015),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { ..s(2) } }", "C2(\"q\"|7).n=true.id=\"q\"{C2(7|-2147483648).n=7.id=7{S(0) S(1)}}", p1016),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) { L0 } }", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){C2(7|13).n=5.id=7{L0()}}", p1017),
    ("C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { C0 {  } } }", "C2(2|7).n=false.id=2{C2(1|7).n=\"s\".id=1{C0(){}}}", p1018),
    ("C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } } }", "C2(2147483647|tick).n=[7, 7].id=2147483647{C2(\"x\"|99).n=1..3.id=\"x\"{C2(8|true).n=Some(1).id=8{}}}", p1019),
    ("L1(P { x: a }.x, id: <i32>::MIN) L1(r#\"q\"#, id: *&a) L1(1, id: -1) L1(a, id: a + 2 * 3)", "L1(7).id=-2147483648 L1(\"q\").id=7 L1(1).id=-1 L1(7).id=13", p1020),
    ("..s(2).into_iter().rev() L1(m::f(1, 2), id: a as u8) L1([1, 2], id: (1, \"t\")) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b })", "S(1) S(0) L1((1, 2)).id=7 L1([1, 2]).id=(1, \"t\") L1(1).id=7", p1021),
    ("C0 {  } L1((|v: i32| v + 1)(a), id: a < 9) L1(\"x\".to_string(), id: b'c') L1(i32::MAX, id: tick())", "C0(){} L1(8).id=true L1(\"x\").id=99 L1(2147483647).id=tick", p1022),
    ("L1(P { x: a }.x, id: <i32>::MIN) ..s(2).into_iter().rev() L1(r#\"q\"#, id: *&a) L1(1, id: -1)", "L1(7).id=-2147483648 S(1) S(0) L1(\"q\").id=7 L1(1).id=-1", p1023),
    ("..s(2).into_iter().rev() ..s(2).into_iter().rev() L1(a, id: a + 2 * 3) L1(m::f(1, 2), id: a as u8)", "S(1) S(0) S(1) S(0) L1(7).id=13 L1((1, 2)).id=7", p1024),
    ("C0 {  } ..s(2).into_iter().rev() L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L1(s(2).len(), id: &a)", "C0(){} S(1) S(0) L1(1).id=7 L1(2).id=7", p1025),
    ("L1((|v: i32| v + 1)(a), id: a < 9) C0 {  } L1(i32::MAX, id: tick()) L1(P { x: a }.x, id: <i32>::MIN)", "L1(8).id=true C0(){} L1(2147483647).id=tick L1(7).id=-2147483648", p1026),
    ("..s(2).into_iter().rev() C0 {  } L1(1, id: -1) L1(a, id: a + 2 * 3)", "S(1) S(0) C0(){} L1(1).id=-1 L1(7).id=13", p1027),
    ("C0 {  } C0 {  } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L1(s(2).len(), id: &a)", "C0(){} C0(){} L1(1).id=7 L1(2).id=7", p1028),
    ("L1((|v: i32| v + 1)(a), id: a < 9) L1(\"x\".to_string(), id: b'c') ..s(2).into_iter().rev() L1(i32::MAX, id: tick())", "L1(8).id=true L1(\"x\").id=99 S(1) S(0) L1(2147483647).id=tick", p1029),
    ("..s(2).into_iter().rev() L1(P { x: a }.x, id: <i32>::MIN) ..s(2).into_iter().rev() L1(r#\"q\"#, id: *&a)", "S(1) S(0) L1(7).id=-2147483648 S(1) S(0) L1(\"q\").id=7", p1030),
    ("C0 {  } L1(a, id: a + 2 * 3) ..s(2).into_iter().rev() L1(m::f(1, 2), id: a as u8)", "C0(){} L1(7).id=13 S(1) S(0) L1((1, 2)).id=7", p1031),
    ("L1([1, 2], id: (1, \"t\")) ..s(2).into_iter().rev() ..s(2).into_iter().rev() L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b })", "L1([1, 2]).id=(1, \"t\") S(1) S(0) S(1) S(0) L1(1).id=7", p1032),
    ("..s(2).into_iter().rev() ..s(2).into_iter().rev() ..s(2).into_iter().rev() L1(s(2).len(), id: &a)", "S(1) S(0) S(1) S(0) S(1) S(0) L1(2).id=7", p1033),
    ("C0 {  } ..s(2).into_iter().rev() ..s(2).into_iter().rev() L1(\"x\".to_string(), id: b'c')", "C0(){} S(1) S(0) S(1) S(0) L1(\"x\").id=99", p1034),
    ("L1(i32::MAX, id: tick()) C0 {  } ..s(2).into_iter().rev() L1(r#\"q\"#, id: *&a)", "L1(2147483647).id=tick C0(){} S(1) S(0) L1(\"q\").id=7", p1035),
    ("..s(2).into_iter().rev() C0 {  } ..s(2).into_iter().rev() L1(a, id: a + 2 * 3)", "S(1) S(0) C0(){} S(1) S(0) L1(7).id=13", p1036),
    ("C0 {  } C0 {  } ..s(2).into_iter().rev() L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b })", "C0(){} C0(){} S(1) S(0) L1(1).id=7", p1037),
    ("L1(s(2).len(), id: &a) L1((|v: i32| v + 1)(a), id: a < 9) C0 {  } L1(i32::MAX, id: tick())", "L1(2).id=7 L1(8).id=true C0(){} L1(2147483647).id=tick", p1038),
    ("..s(2).into_iter().rev() L1(P { x: a }.x, id: <i32>::MIN) C0 {  } L1(1, id: -1)", "S(1) S(0) L1(7).id=-2147483648 C0(){} L1(1).id=-1", p1039),
    ("C0 {  } L1(m::f(1, 2), id: a as u8) C0 {  } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b })", "C0(){} L1((1, 2)).id=7 C0(){} L1(1).id=7", p1040),
    ("L1(s(2).len(), id: &a) ..s(2).into_iter().rev() C0 {  } L1(\"x\".to_string(), id: b'c')", "L1(2).id=7 S(1) S(0) C0(){} L1(\"x\").id=99", p1041),
    ("..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 {  } L1(P { x: a }.x, id: <i32>::MIN)", "S(1) S(0) S(1) S(0) C0(){} L1(7).id=-2147483648", p1042),
    ("C0 {  } ..s(2).into_iter().rev() C0 {  } L1(a, id: a + 2 * 3)", "C0(){} S(1) S(0) C0(){} L1(7).id=13", p1043),
    ("L1(m::f(1, 2), id: a as u8) C0 {  } C0 {  } L1(s(2).len(), id: &a)", "L1((1, 2)).id=7 C0(){} C0(){} L1(2).id=7", p1044),
    ("..s(2).into_iter().rev() C0 {  } C0 {  } L1(i32::MAX, id: tick())", "S(1) S(0) C0(){} C0(){} L1(2147483647).id=tick", p1045),
    ("C0 {  } C0 {  } C0 {  } L1(a, id: a + 2 * 3)", "C0(){} C0(){} C0(){} L1(7).id=13", p1046),
    ("L1(m::f(1, 2), id: a as u8) L1([1, 2], id: (1, \"t\")) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) ..s(2).into_iter().rev()", "L1((1, 2)).id=7 L1([1, 2]).id=(1, \"t\") L1(1).id=7 S(1) S(0)", p1047),
    ("..s(2).into_iter().rev() L1(s(2).len(), id: &a) L1((|v: i32| v + 1)(a), id: a < 9) ..s(2).into_iter().rev()", "S(1) S(0) L1(2).id=7 L1(8).id=true S(1) S(0)", p1048),
    ("C0 {  } L1(i32::MAX, id: tick()) L1(P { x: a }.x, id: <i32>::MIN) ..s(2).into_iter().rev()", "C0(){} L1(2147483647).id=tick L1(7).id=-2147483648 S(1) S(0)", p1049),
    ("L1(r#\"q\"#, id: *&a) ..s(2).into_iter().rev() L1(1, id: -1) ..s(2).into_iter().rev()", "L1(\"q\").id=7 S(1) S(0) L1(1).id=-1 S(1) S(0)", p1050),
    ("..s(2).into_iter().rev() ..s(2).into_iter().rev() L1(a, id: a + 2 * 3) ..s(2).into_iter().rev()", "S(1) S(0) S(1) S(0) L1(7).id=13 S(1) S(0)", p1051),
    ("C0 {  } ..s(2).into_iter().rev() L1([1, 2], id: (1, \"t\")) ..s(2).into_iter().rev()", "C0(){} S(1) S(0) L1([1, 2]).id=(1, \"t\") S(1) S(0)", p1052),
    ("L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) C0 {  } L1((|v: i32| v + 1)(a), id: a < 9) ..s(2).into_iter().rev()", "L1(1).id=7 C0(){} L1(8).id=true S(1) S(0)", p1053),
    ("..s(2).into_iter().rev() C0 {  } L1(i32::MAX, id: tick()) ..s(2).into_iter().rev()", "S(1) S(0) C0(){} L1(2147483647).id=tick S(1) S(0)", p1054),
    ("C0 {  } C0 {  } L1(1, id: -1) ..s(2).into_iter().rev()", "C0(){} C0(){} L1(1).id=-1 S(1) S(0)", p1055),
    ("L1(a, id: a + 2 * 3) L1(m::f(1, 2), id: a as u8) ..s(2).into_iter().rev() ..s(2).into_iter().rev()", "L1(7).id=13 L1((1, 2)).id=7 S(1) S(0) S(1) S(0)", p1056),
    ("..s(2).into_iter().rev() L1([1, 2], id: (1, \"t\")) ..s(2).into_iter().rev() ..s(2).into_iter().rev()", "S(1) S(0) L1([1, 2]).id=(1, \"t\") S(1) S(0) S(1) S(0)", p1057),
    ("C0 {  } L1(s(2).len(), id: &a) ..s(2).into_iter().rev() ..s(2).into_iter().rev()", "C0(){} L1(2).id=7 S(1) S(0) S(1) S(0)", p1058),
    ("L1((|v: i32| v + 1)(a), id: a < 9) ..s(2).into_iter().rev() ..s(2).into_iter().rev() ..s(2).into_iter().rev()", "L1(8).id=true S(1) S(0) S(1) S(0) S(1) S(0)", p1059),
    ("..s(2).into_iter().rev() ..s(2).into_iter().rev() ..s(2).into_iter().rev() ..s(2).into_iter().rev()", "S(1) S(0) S(1) S(0) S(1) S(0) S(1) S(0)", p1060),
    ("C0 {  } ..s(2).into_iter().rev() ..s(2).into_iter().rev() ..s(2).into_iter().rev()", "C0(){} S(1) S(0) S(1) S(0) S(1) S(0)", p1061),
    ("L1(i32::MAX, id: tick()) C0 {  } ..s(2).into_iter().rev() ..s(2).into_iter().rev()", "L1(2147483647).id=tick C0(){} S(1) S(0) S(1) S(0)", p1062),
    ("..s(2).into_iter().rev() C0 {  } ..s(2).into_iter().rev() ..s(2).into_iter().rev()", "S(1) S(0) C0(){} S(1) S(0) S(1) S(0)", p1063),
    ("C0 {  } C0 {  } ..s(2).into_iter().rev() ..s(2).into_iter().rev()", "C0(){} C0(){} S(1) S(0) S(1) S(0)", p1064),
    ("L1(m::f(1, 2), id: a as u8) L1([1, 2], id: (1, \"t\")) C0 {  } ..s(2).into_iter().rev()", "L1((1, 2)).id=7 L1([1, 2]).id=(1, \"t\") C0(){} S(1) S(0)", p1065),
    ("..s(2).into_iter().rev() L1(s(2).len(), id: &a) C0 {  } ..s(2).into_iter().rev()", "S(1) S(0) L1(2).id=7 C0(){} S(1) S(0)", p1066),
    ("C0 {  } L1(i32::MAX, id: tick()) C0 {  } ..s(2).into_iter().rev()", "C0(){} L1(2147483647).id=tick C0(){} S(1) S(0)", p1067),
    ("L1(r#\"q\"#, id: *&a) ..s(2).into_iter().rev() C0 {  } ..s(2).into_iter().rev()", "L1(\"q\").id=7 S(1) S(0) C0(){} S(1) S(0)", p1068),
    ("..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 {  } ..s(2).into_iter().rev()", "S(1) S(0) S(1) S(0) C0(){} S(1) S(0)", p1069),
    ("C0 {  } ..s(2).into_iter().rev() C0 {  } ..s(2).into_iter().rev()", "C0(){} S(1) S(0) C0(){} S(1) S(0)", p1070),
    ("L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) C0 {  } C0 {  } ..s(2).into_iter().rev()", "L1(1).id=7 C0(){} C0(){} S(1) S(0)", p1071),
    ("..s(2).into_iter().rev() C0 {  } C0 {  } ..s(2).into_iter().rev()", "S(1) S(0) C0(){} C0(){} S(1) S(0)", p1072),
    ("C0 {  } C0 {  } C0 {  } ..s(2).into_iter().rev()", "C0(){} C0(){} C0(){} S(1) S(0)", p1073),
    ("L1(a, id: a + 2 * 3) L1(m::f(1, 2), id: a as u8) L1([1, 2], id: (1, \"t\")) C0 {  }", "L1(7).id=13 L1((1, 2)).id=7 L1([1, 2]).id=(1, \"t\") C0(){}", p1074),
    ("..s(2).into_iter().rev() L1(s(2).len(), id: &a) L1((|v: i32| v + 1)(a), id: a < 9) C0 {  }", "S(1) S(0) L1(2).id=7 L1(8).id=true C0(){}", p1075),
    ("C0 {  } L1(P { x: a }.x, id: <i32>::MIN) L1(r#\"q\"#, id: *&a) C0 {  }", "C0(){} L1(7).id=-2147483648 L1(\"q\").id=7 C0(){}", p1076),
    ("L1(a, id: a + 2 * 3) ..s(2).into_iter().rev() L1(m::f(1, 2), id: a as u8) C0 {  }", "L1(7).id=13 S(1) S(0) L1((1, 2)).id=7 C0(){}", p1077),
    ("..s(2).into_iter().rev() ..s(2).into_iter().rev() L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) C0 {  }", "S(1) S(0) S(1) S(0) L1(1).id=7 C0(){}", p1078),
    ("C0 {  } ..s(2).into_iter().rev() L1(\"x\".to_string(), id: b'c') C0 {  }", "C0(){} S(1) S(0) L1(\"x\").id=99 C0(){}", p1079),
    ("L1(P { x: a }.x, id: <i32>::MIN) C0 {  } L1(1, id: -1) C0 {  }", "L1(7).id=-2147483648 C0(){} L1(1).id=-1 C0(){}", p1080),
    ("..s(2).into_iter().rev() C0 {  } L1([1, 2], id: (1, \"t\")) C0 {  }", "S(1) S(0) C0(){} L1([1, 2]).id=(1, \"t\") C0(){}", p1081),
    ("C0 {  } C0 {  } L1(\"x\".to_string(), id: b'c') C0 {  }", "C0(){} C0(){} L1(\"x\").id=99 C0(){}", p1082),
    ("L1(P { x: a }.x, id: <i32>::MIN) L1(r#\"q\"#, id: *&a) ..s(2).into_iter().rev() C0 {  }", "L1(7).id=-2147483648 L1(\"q\").id=7 S(1) S(0) C0(){}", p1083),
    ("..s(2).into_iter().rev() L1(a, id: a + 2 * 3) ..s(2).into_iter().rev() C0 {  }", "S(1) S(0) L1(7).id=13 S(1) S(0) C0(){}", p1084),
    ("C0 {  } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) ..s(2).into_iter().rev() C0 {  }", "C0(){} L1(1).id=7 S(1) S(0) C0(){}", p1085),
    ("L1((|v: i32| v + 1)(a), id: a < 9) ..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 {  }", "L1(8).id=true S(1) S(0) S(1) S(0) C0(){}", p1086),
    ("..s(2).into_iter().rev() ..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 {  }", "S(1) S(0) S(1) S(0) S(1) S(0) C0(){}", p1087),
    ("C0 {  } ..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 {  }", "C0(){} S(1) S(0) S(1) S(0) C0(){}", p1088),
    ("L1(1, id: -1) C0 {  } ..s(2).into_iter().rev() C0 {  }", "L1(1).id=-1 C0(){} S(1) S(0) C0(){}", p1089),
    ("..s(2).into_iter().rev() C0 {  } ..s(2).into_iter().rev() C0 {  }", "S(1) S(0) C0(){} S(1) S(0) C0(){}", p1090),
    ("C0 {  } C0 {  } ..s(2).into_iter().rev() C0 {  }", "C0(){} C0(){} S(1) S(0) C0(){}", p1091),
    ("L1(i32::MAX, id: tick()) L1(P { x: a }.x, id: <i32>::MIN) C0 {  } C0 {  }", "L1(2147483647).id=tick L1(7).id=-2147483648 C0(){} C0(){}", p1092),
    ("..s(2).into_iter().rev() L1(a, id: a + 2 * 3) C0 {  } C0 {  }", "S(1) S(0) L1(7).id=13 C0(){} C0(){}", p1093),
    ("C0 {  } L1(s(2).len(), id: &a) C0 {  } C0 {  }", "C0(){} L1(2).id=7 C0(){} C0(){}", p1094),
    ("L1(i32::MAX, id: tick()) ..s(2).into_iter().rev() C0 {  } C0 {  }", "L1(2147483647).id=tick S(1) S(0) C0(){} C0(){}", p1095),
    ("..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 {  } C0 {  }", "S(1) S(0) S(1) S(0) C0(){} C0(){}", p1096),
    ("C0 {  } ..s(2).into_iter().rev() C0 {  } C0 {  }", "C0(){} S(1) S(0) C0(){} C0(){}", p1097),
    ("L1(s(2).len(), id: &a) C0 {  } C0 {  } C0 {  }", "L1(2).id=7 C0(){} C0(){} C0(){}", p1098),
    ("..s(2).into_iter().rev() C0 {  } C0 {  } C0 {  }", "S(1) S(0) C0(){} C0(){} C0(){}", p1099),
    ("C0 {  } C0 {  } C0 {  } C0 {  }", "C0(){} C0(){} C0(){} C0(){}", p1100),
    ("L1(s(2).len(), id: &a) L1((|v: i32| v + 1)(a), id: a < 9) C0 { L1(\"x\".to_string(), id: b'c') }", "L1(2).id=7 L1(8).id=true C0(){L1(\"x\").id=99}", p1101),
    ("..s(2).into_iter().rev() L1(P { x: a }.x, id: <i32>::MIN) C0 { L1(r#\"q\"#, id: *&a) }", "S(1) S(0) L1(7).id=-2147483648 C0(){L1(\"q\").id=7}", p1102),
    ("C0 {  } L1(m::f(1, 2), id: a as u8) C0 { L1([1, 2], id: (1, \"t\")) }", "C0(){} L1((1, 2)).id=7 C0(){L1([1, 2]).id=(1, \"t\")}", p1103),
    ("L1(s(2).len(), id: &a) ..s(2).into_iter().rev() C0 { L1((|v: i32| v + 1)(a), id: a < 9) }", "L1(2).id=7 S(1) S(0) C0(){L1(8).id=true}", p1104),
    ("..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 { L1(i32::MAX, id: tick()) }", "S(1) S(0) S(1) S(0) C0(){L1(2147483647).id=tick}", p1105),
    ("C0 {  } ..s(2).into_iter().rev() C0 { L1(1, id: -1) }", "C0(){} S(1) S(0) C0(){L1(1).id=-1}", p1106),
    ("L1(m::f(1, 2), id: a as u8) C0 {  } C0 { L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }", "L1((1, 2)).id=7 C0(){} C0(){L1(1).id=7}", p1107),
    ("..s(2).into_iter().rev() C0 {  } C0 { L1(\"x\".to_string(), id: b'c') }", "S(1) S(0) C0(){} C0(){L1(\"x\").id=99}", p1108),
    ("C0 {  } C0 {  } C0 { L1(1, id: -1) }", "C0(){} C0(){} C0(){L1(1).id=-1}", p1109),
    ("L1(m::f(1, 2), id: a as u8) L1([1, 2], id: (1, \"t\")) C0 { ..s(2).into_iter().rev() }", "L1((1, 2)).id=7 L1([1, 2]).id=(1, \"t\") C0(){S(1) S(0)}", p1110),
    ("..s(2).into_iter().rev() L1(s(2).len(), id: &a) C0 { ..s(2).into_iter().rev() }", "S(1) S(0) L1(2).id=7 C0(){S(1) S(0)}", p1111),
    ("C0 {  } L1(i32::MAX, id: tick()) C0 { ..s(2).into_iter().rev() }", "C0(){} L1(2147483647).id=tick C0(){S(1) S(0)}", p1112),
    ("L1(r#\"q\"#, id: *&a) ..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() }", "L1(\"q\").id=7 S(1) S(0) C0(){S(1) S(0)}", p1113),
    ("..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() }", "S(1) S(0) S(1) S(0) C0(){S(1) S(0)}", p1114),
    ("C0 {  } ..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() }", "C0(){} S(1) S(0) C0(){S(1) S(0)}", p1115),
    ("L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) C0 {  } C0 { ..s(2).into_iter().rev() }", "L1(1).id=7 C0(){} C0(){S(1) S(0)}", p1116),
    ("..s(2).into_iter().rev() C0 {  } C0 { ..s(2).into_iter().rev() }", "S(1) S(0) C0(){} C0(){S(1) S(0)}", p1117),
    ("C0 {  } C0 {  } C0 { ..s(2).into_iter().rev() }", "C0(){} C0(){} C0(){S(1) S(0)}", p1118),
    ("L1(a, id: a + 2 * 3) L1(m::f(1, 2), id: a as u8) C0 { C0 {  } }", "L1(7).id=13 L1((1, 2)).id=7 C0(){C0(){}}", p1119),
    ("..s(2).into_iter().rev() L1(s(2).len(), id: &a) C0 { C0 {  } }", "S(1) S(0) L1(2).id=7 C0(){C0(){}}", p1120),
    ("C0 {  } L1(P { x: a }.x, id: <i32>::MIN) C0 { C0 {  } }", "C0(){} L1(7).id=-2147483648 C0(){C0(){}}", p1121),
    ("L1(a, id: a + 2 * 3) ..s(2).into_iter().rev() C0 { C0 {  } }", "L1(7).id=13 S(1) S(0) C0(){C0(){}}", p1122),
    ("..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 { C0 {  } }", "S(1) S(0) S(1) S(0) C0(){C0(){}}", p1123),
    ("C0 {  } ..s(2).into_iter().rev() C0 { C0 {  } }", "C0(){} S(1) S(0) C0(){C0(){}}", p1124),
    ("L1(P { x: a }.x, id: <i32>::MIN) C0 {  } C0 { C0 {  } }", "L1(7).id=-2147483648 C0(){} C0(){C0(){}}", p1125),
    ("..s(2).into_iter().rev() C0 {  } C0 { C0 {  } }", "S(1) S(0) C0(){} C0(){C0(){}}", p1126),
    ("C0 {  } C0 {  } C0 { C0 {  } }", "C0(){} C0(){} C0(){C0(){}}", p1127),
    ("L1(P { x: a }.x, id: <i32>::MIN) C0 { L1(r#\"q\"#, id: *&a) } L1(a, id: a + 2 * 3)", "L1(7).id=-2147483648 C0(){L1(\"q\").id=7} L1(7).id=13", p1128),
    ("..s(2).into_iter().rev() C0 { L1(m::f(1, 2), id: a as u8) } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b })", "S(1) S(0) C0(){L1((1, 2)).id=7} L1(1).id=7", p1129),
    ("C0 {  } C0 { L1((|v: i32| v + 1)(a), id: a < 9) } L1(i32::MAX, id: tick())", "C0(){} C0(){L1(8).id=true} L1(2147483647).id=tick", p1130),
    ("L1(P { x: a }.x, id: <i32>::MIN) C0 { ..s(2).into_iter().rev() } L1(1, id: -1)", "L1(7).id=-2147483648 C0(){S(1) S(0)} L1(1).id=-1", p1131),
    ("..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() } L1(m::f(1, 2), id: a as u8)", "S(1) S(0) C0(){S(1) S(0)} L1((1, 2)).id=7", p1132),
    ("C0 {  } C0 { ..s(2).into_iter().rev() } L1(s(2).len(), id: &a)", "C0(){} C0(){S(1) S(0)} L1(2).id=7", p1133),
    ("L1((|v: i32| v + 1)(a), id: a < 9) C0 { C0 {  } } L1(P { x: a }.x, id: <i32>::MIN)", "L1(8).id=true C0(){C0(){}} L1(7).id=-2147483648", p1134),
    ("..s(2).into_iter().rev() C0 { C0 {  } } L1(a, id: a + 2 * 3)", "S(1) S(0) C0(){C0(){}} L1(7).id=13", p1135),
    ("C0 {  } C0 { C0 {  } } L1(s(2).len(), id: &a)", "C0(){} C0(){C0(){}} L1(2).id=7", p1136),
    ("L1((|v: i32| v + 1)(a), id: a < 9) C0 { L1(\"x\".to_string(), id: b'c') } ..s(2).into_iter().rev()", "L1(8).id=true C0(){L1(\"x\").id=99} S(1) S(0)", p1137),
    ("..s(2).into_iter().rev() C0 { L1(P { x: a }.x, id: <i32>::MIN) } ..s(2).into_iter().rev()", "S(1) S(0) C0(){L1(7).id=-2147483648} S(1) S(0)", p1138),
    ("C0 {  } C0 { L1(a, id: a + 2 * 3) } ..s(2).into_iter().rev()", "C0(){} C0(){L1(7).id=13} S(1) S(0)", p1139),
    ("L1([1, 2], id: (1, \"t\")) C0 { ..s(2).into_iter().rev() } ..s(2).into_iter().rev()", "L1([1, 2]).id=(1, \"t\") C0(){S(1) S(0)} S(1) S(0)", p1140),
    ("..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() } ..s(2).into_iter().rev()", "S(1) S(0) C0(){S(1) S(0)} S(1) S(0)", p1141),
    ("C0 {  } C0 { ..s(2).into_iter().rev() } ..s(2).into_iter().rev()", "C0(){} C0(){S(1) S(0)} S(1) S(0)", p1142),
    ("L1(i32::MAX, id: tick()) C0 { C0 {  } } ..s(2).into_iter().rev()", "L1(2147483647).id=tick C0(){C0(){}} S(1) S(0)", p1143),
    ("..s(2).into_iter().rev() C0 { C0 {  } } ..s(2).into_iter().rev()", "S(1) S(0) C0(){C0(){}} S(1) S(0)", p1144),
    ("C0 {  } C0 { C0 {  } } ..s(2).into_iter().rev()", "C0(){} C0(){C0(){}} S(1) S(0)", p1145),
    ("L1(s(2).len(), id: &a) C0 { L1((|v: i32| v + 1)(a), id: a < 9) } C0 {  }", "L1(2).id=7 C0(){L1(8).id=true} C0(){}", p1146),
    ("..s(2).into_iter().rev() C0 { L1(P { x: a }.x, id: <i32>::MIN) } C0 {  }", "S(1) S(0) C0(){L1(7).id=-2147483648} C0(){}", p1147),
    ("C0 {  } C0 { L1(m::f(1, 2), id: a as u8) } C0 {  }", "C0(){} C0(){L1((1, 2)).id=7} C0(){}", p1148),
    ("L1(s(2).len(), id: &a) C0 { ..s(2).into_iter().rev() } C0 {  }", "L1(2).id=7 C0(){S(1) S(0)} C0(){}", p1149),
    ("..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() } C0 {  }", "S(1) S(0) C0(){S(1) S(0)} C0(){}", p1150),
    ("C0 {  } C0 { ..s(2).into_iter().rev() } C0 {  }", "C0(){} C0(){S(1) S(0)} C0(){}", p1151),
    ("L1(m::f(1, 2), id: a as u8) C0 { C0 {  } } C0 {  }", "L1((1, 2)).id=7 C0(){C0(){}} C0(){}", p1152),
    ("..s(2).into_iter().rev() C0 { C0 {  } } C0 {  }", "S(1) S(0) C0(){C0(){}} C0(){}", p1153),
    ("C0 {  } C0 { C0 {  } } C0 {  }", "C0(){} C0(){C0(){}} C0(){}", p1154),
    ("L1(m::f(1, 2), id: a as u8) C0 { L1([1, 2], id: (1, \"t\")) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }", "L1((1, 2)).id=7 C0(){L1([1, 2]).id=(1, \"t\") L1(1).id=7}", p1155),
    ("..s(2).into_iter().rev() C0 { L1((|v: i32| v + 1)(a), id: a < 9) L1(\"x\".to_string(), id: b'c') }", "S(1) S(0) C0(){L1(8).id=true L1(\"x\").id=99}", p1156),
    ("C0 {  } C0 { L1(r#\"q\"#, id: *&a) L1(1, id: -1) }", "C0(){} C0(){L1(\"q\").id=7 L1(1).id=-1}", p1157),
    ("L1(m::f(1, 2), id: a as u8) C0 { ..s(2).into_iter().rev() L1([1, 2], id: (1, \"t\")) }", "L1((1, 2)).id=7 C0(){S(1) S(0) L1([1, 2]).id=(1, \"t\")}", p1158),
    ("..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() L1(s(2).len(), id: &a) }", "S(1) S(0) C0(){S(1) S(0) L1(2).id=7}", p1159),
    ("C0 {  } C0 { ..s(2).into_iter().rev() L1(i32::MAX, id: tick()) }", "C0(){} C0(){S(1) S(0) L1(2147483647).id=tick}", p1160),
    ("L1(r#\"q\"#, id: *&a) C0 { C0 {  } L1(a, id: a + 2 * 3) }", "L1(\"q\").id=7 C0(){C0(){} L1(7).id=13}", p1161),
    ("..s(2).into_iter().rev() C0 { C0 {  } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }", "S(1) S(0) C0(){C0(){} L1(1).id=7}", p1162),
    ("C0 {  } C0 { C0 {  } L1(i32::MAX, id: tick()) }", "C0(){} C0(){C0(){} L1(2147483647).id=tick}", p1163),
    ("L1(r#\"q\"#, id: *&a) C0 { L1(1, id: -1) ..s(2).into_iter().rev() }", "L1(\"q\").id=7 C0(){L1(1).id=-1 S(1) S(0)}", p1164),
    ("..s(2).into_iter().rev() C0 { L1(m::f(1, 2), id: a as u8) ..s(2).into_iter().rev() }", "S(1) S(0) C0(){L1((1, 2)).id=7 S(1) S(0)}", p1165),
    ("C0 {  } C0 { L1(s(2).len(), id: &a) ..s(2).into_iter().rev() }", "C0(){} C0(){L1(2).id=7 S(1) S(0)}", p1166),
    ("L1(\"x\".to_string(), id: b'c') C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() }", "L1(\"x\").id=99 C0(){S(1) S(0) S(1) S(0)}", p1167),
    ("..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() }", "S(1) S(0) C0(){S(1) S(0) S(1) S(0)}", p1168),
    ("C0 {  } C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() }", "C0(){} C0(){S(1) S(0) S(1) S(0)}", p1169),
    ("L1(a, id: a + 2 * 3) C0 { C0 {  } ..s(2).into_iter().rev() }", "L1(7).id=13 C0(){C0(){} S(1) S(0)}", p1170),
    ("..s(2).into_iter().rev() C0 { C0 {  } ..s(2).into_iter().rev() }", "S(1) S(0) C0(){C0(){} S(1) S(0)}", p1171),
    ("C0 {  } C0 { C0 {  } ..s(2).into_iter().rev() }", "C0(){} C0(){C0(){} S(1) S(0)}", p1172),
    ("L1(P { x: a }.x, id: <i32>::MIN) C0 { L1(r#\"q\"#, id: *&a) C0 {  } }", "L1(7).id=-2147483648 C0(){L1(\"q\").id=7 C0(){}}", p1173),
    ("..s(2).into_iter().rev() C0 { L1(m::f(1, 2), id: a as u8) C0 {  } }", "S(1) S(0) C0(){L1((1, 2)).id=7 C0(){}}", p1174),
    ("C0 {  } C0 { L1((|v: i32| v + 1)(a), id: a < 9) C0 {  } }", "C0(){} C0(){L1(8).id=true C0(){}}", p1175),
    ("L1(P { x: a }.x, id: <i32>::MIN) C0 { ..s(2).into_iter().rev() C0 {  } }", "L1(7).id=-2147483648 C0(){S(1) S(0) C0(){}}", p1176),
    ("..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() C0 {  } }", "S(1) S(0) C0(){S(1) S(0) C0(){}}", p1177),
    ("C0 {  } C0 { ..s(2).into_iter().rev() C0 {  } }", "C0(){} C0(){S(1) S(0) C0(){}}", p1178),
    ("L1((|v: i32| v + 1)(a), id: a < 9) C0 { C0 {  } C0 {  } }", "L1(8).id=true C0(){C0(){} C0(){}}", p1179),
    ("..s(2).into_iter().rev() C0 { C0 {  } C0 {  } }", "S(1) S(0) C0(){C0(){} C0(){}}", p1180),
    ("C0 {  } C0 { C0 {  } C0 {  } }", "C0(){} C0(){C0(){} C0(){}}", p1181),
    ("L1((|v: i32| v + 1)(a), id: a < 9) C0 { C0 { L1(\"x\".to_string(), id: b'c') } }", "L1(8).id=true C0(){C0(){L1(\"x\").id=99}}", p1182),
    ("..s(2).into_iter().rev() C0 { C0 { L1(r#\"q\"#, id: *&a) } }", "S(1) S(0) C0(){C0(){L1(\"q\").id=7}}", p1183),
    ("C0 {  } C0 { C0 { L1([1, 2], id: (1, \"t\")) } }", "C0(){} C0(){C0(){L1([1, 2]).id=(1, \"t\")}}", p1184),
    ("L1((|v: i32| v + 1)(a), id: a < 9) C0 { C0 { ..s(2).into_iter().rev() } }", "L1(8).id=true C0(){C0(){S(1) S(0)}}", p1185),
    ("..s(2).into_iter().rev() C0 { C0 { ..s(2).into_iter().rev() } }", "S(1) S(0) C0(){C0(){S(1) S(0)}}", p1186),
    ("C0 {  } C0 { C0 { ..s(2).into_iter().rev() } }", "C0(){} C0(){C0(){S(1) S(0)}}", p1187),
    ("L1([1, 2], id: (1, \"t\")) C0 { C0 { C0 {  } } }", "L1([1, 2]).id=(1, \"t\") C0(){C0(){C0(){}}}", p1188),
    ("..s(2).into_iter().rev() C0 { C0 { C0 {  } } }", "S(1) S(0) C0(){C0(){C0(){}}}", p1189),
    ("C0 {  } C0 { C0 { C0 {  } } }", "C0(){} C0(){C0(){C0(){}}}", p1190),
    ("C0 { L1([1, 2], id: (1, \"t\")) } L1(s(2).len(), id: &a) L1((|v: i32| v + 1)(a), id: a < 9)", "C0(){L1([1, 2]).id=(1, \"t\")} L1(2).id=7 L1(8).id=true", p1191),
    ("C0 { ..s(2).into_iter().rev() } L1(i32::MAX, id: tick()) L1(P { x: a }.x, id: <i32>::MIN)", "C0(){S(1) S(0)} L1(2147483647).id=tick L1(7).id=-2147483648", p1192),
    ("C0 { C0 {  } } L1(a, id: a + 2 * 3) L1(m::f(1, 2), id: a as u8)", "C0(){C0(){}} L1(7).id=13 L1((1, 2)).id=7", p1193),
    ("C0 { L1([1, 2], id: (1, \"t\")) } ..s(2).into_iter().rev() L1(s(2).len(), id: &a)", "C0(){L1([1, 2]).id=(1, \"t\")} S(1) S(0) L1(2).id=7", p1194),
    ("C0 { ..s(2).into_iter().rev() } ..s(2).into_iter().rev() L1(\"x\".to_string(), id: b'c')", "C0(){S(1) S(0)} S(1) S(0) L1(\"x\").id=99", p1195),
    ("C0 { C0 {  } } ..s(2).into_iter().rev() L1(r#\"q\"#, id: *&a)", "C0(){C0(){}} S(1) S(0) L1(\"q\").id=7", p1196),
    ("C0 { L1(1, id: -1) } C0 {  } L1([1, 2], id: (1, \"t\"))", "C0(){L1(1).id=-1} C0(){} L1([1, 2]).id=(1, \"t\")", p1197),
    ("C0 { ..s(2).into_iter().rev() } C0 {  } L1((|v: i32| v + 1)(a), id: a < 9)", "C0(){S(1) S(0)} C0(){} L1(8).id=true", p1198),
    ("C0 { C0 {  } } C0 {  } L1(r#\"q\"#, id: *&a)", "C0(){C0(){}} C0(){} L1(\"q\").id=7", p1199),
    ("C0 { L1(1, id: -1) } L1(m::f(1, 2), id: a as u8) ..s(2).into_iter().rev()", "C0(){L1(1).id=-1} L1((1, 2)).id=7 S(1) S(0)", p1200),
    ("C0 { ..s(2).into_iter().rev() } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) ..s(2).into_iter().rev()", "C0(){S(1) S(0)} L1(1).id=7 S(1) S(0)", p1201),
    ("C0 { C0 {  } } L1(\"x\".to_string(), id: b'c') ..s(2).into_iter().rev()", "C0(){C0(){}} L1(\"x\").id=99 S(1) S(0)", p1202),
    ("C0 { L1(i32::MAX, id: tick()) } ..s(2).into_iter().rev() ..s(2).into_iter().rev()", "C0(){L1(2147483647).id=tick} S(1) S(0) S(1) S(0)", p1203),
    ("C0 { ..s(2).into_iter().rev() } ..s(2).into_iter().rev() ..s(2).into_iter().rev()", "C0(){S(1) S(0)} S(1) S(0) S(1) S(0)", p1204),
    ("C0 { C0 {  } } ..s(2).into_iter().rev() ..s(2).into_iter().rev()", "C0(){C0(){}} S(1) S(0) S(1) S(0)", p1205),
    ("C0 { L1(m::f(1, 2), id: a as u8) } C0 {  } ..s(2).into_iter().rev()", "C0(){L1((1, 2)).id=7} C0(){} S(1) S(0)", p1206),
    ("C0 { ..s(2).into_iter().rev() } C0 {  } ..s(2).into_iter().rev()", "C0(){S(1) S(0)} C0(){} S(1) S(0)", p1207),
    ("C0 { C0 {  } } C0 {  } ..s(2).into_iter().rev()", "C0(){C0(){}} C0(){} S(1) S(0)", p1208),
    ("C0 { L1(r#\"q\"#, id: *&a) } L1(a, id: a + 2 * 3) C0 {  }", "C0(){L1(\"q\").id=7} L1(7).id=13 C0(){}", p1209),
    ("C0 { ..s(2).into_iter().rev() } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) C0 {  }", "C0(){S(1) S(0)} L1(1).id=7 C0(){}", p1210),
    ("C0 { C0 {  } } L1(i32::MAX, id: tick()) C0 {  }", "C0(){C0(){}} L1(2147483647).id=tick C0(){}", p1211),
    ("C0 { L1(r#\"q\"#, id: *&a) } ..s(2).into_iter().rev() C0 {  }", "C0(){L1(\"q\").id=7} S(1) S(0) C0(){}", p1212),
    ("C0 { ..s(2).into_iter().rev() } ..s(2).into_iter().rev() C0 {  }", "C0(){S(1) S(0)} S(1) S(0) C0(){}", p1213),
    ("C0 { C0 {  } } ..s(2).into_iter().rev() C0 {  }", "C0(){C0(){}} S(1) S(0) C0(){}", p1214),
    ("C0 { L1(\"x\".to_string(), id: b'c') } C0 {  } C0 {  }", "C0(){L1(\"x\").id=99} C0(){} C0(){}", p1215),
    ("C0 { ..s(2).into_iter().rev() } C0 {  } C0 {  }", "C0(){S(1) S(0)} C0(){} C0(){}", p1216),
    ("C0 { C0 {  } } C0 {  } C0 {  }", "C0(){C0(){}} C0(){} C0(){}", p1217),
    ("C0 { L1(\"x\".to_string(), id: b'c') } C0 { L1(P { x: a }.x, id: <i32>::MIN) }", "C0(){L1(\"x\").id=99} C0(){L1(7).id=-2147483648}", p1218),
    ("C0 { ..s(2).into_iter().rev() } C0 { L1(a, id: a + 2 * 3) }", "C0(){S(1) S(0)} C0(){L1(7).id=13}", p1219),
    ("C0 { C0 {  } } C0 { L1(s(2).len(), id: &a) }", "C0(){C0(){}} C0(){L1(2).id=7}", p1220),
    ("C0 { L1(\"x\".to_string(), id: b'c') } C0 { ..s(2).into_iter().rev() }", "C0(){L1(\"x\").id=99} C0(){S(1) S(0)}", p1221),
    ("C0 { ..s(2).into_iter().rev() } C0 { ..s(2).into_iter().rev() }", "C0(){S(1) S(0)} C0(){S(1) S(0)}", p1222),
    ("C0 { C0 {  } } C0 { ..s(2).into_iter().rev() }", "C0(){C0(){}} C0(){S(1) S(0)}", p1223),
    ("C0 { L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) } C0 { C0 {  } }", "C0(){L1(1).id=7} C0(){C0(){}}", p1224),
    ("C0 { ..s(2).into_iter().rev() } C0 { C0 {  } }", "C0(){S(1) S(0)} C0(){C0(){}}", p1225),
    ("C0 { C0 {  } } C0 { C0 {  } }", "C0(){C0(){}} C0(){C0(){}}", p1226),
    ("C0 { L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L1(s(2).len(), id: &a) } L1(\"x\".to_string(), id: b'c')", "C0(){L1(1).id=7 L1(2).id=7} L1(\"x\").id=99", p1227),
    ("C0 { ..s(2).into_iter().rev() L1(i32::MAX, id: tick()) } L1(r#\"q\"#, id: *&a)", "C0(){S(1) S(0) L1(2147483647).id=tick} L1(\"q\").id=7", p1228),
    ("C0 { C0 {  } L1(a, id: a + 2 * 3) } L1([1, 2], id: (1, \"t\"))", "C0(){C0(){} L1(7).id=13} L1([1, 2]).id=(1, \"t\")", p1229),
    ("C0 { L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) ..s(2).into_iter().rev() } L1((|v: i32| v + 1)(a), id: a < 9)", "C0(){L1(1).id=7 S(1) S(0)} L1(8).id=true", p1230),
    ("C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() } L1(i32::MAX, id: tick())", "C0(){S(1) S(0) S(1) S(0)} L1(2147483647).id=tick", p1231),
    ("C0 { C0 {  } ..s(2).into_iter().rev() } L1(1, id: -1)", "C0(){C0(){} S(1) S(0)} L1(1).id=-1", p1232),
    ("C0 { L1(a, id: a + 2 * 3) C0 {  } } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b })", "C0(){L1(7).id=13 C0(){}} L1(1).id=7", p1233),
    ("C0 { ..s(2).into_iter().rev() C0 {  } } L1(\"x\".to_string(), id: b'c')", "C0(){S(1) S(0) C0(){}} L1(\"x\").id=99", p1234),
    ("C0 { C0 {  } C0 {  } } L1(1, id: -1)", "C0(){C0(){} C0(){}} L1(1).id=-1", p1235),
    ("C0 { C0 { L1(a, id: a + 2 * 3) } } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b })", "C0(){C0(){L1(7).id=13}} L1(1).id=7", p1236),
    ("C0 { C0 { ..s(2).into_iter().rev() } } L1(\"x\".to_string(), id: b'c')", "C0(){C0(){S(1) S(0)}} L1(\"x\").id=99", p1237),
    ("C0 { C0 { C0 {  } } } L1(1, id: -1)", "C0(){C0(){C0(){}}} L1(1).id=-1", p1238),
    ("C0 { L1(a, id: a + 2 * 3) L1(m::f(1, 2), id: a as u8) } ..s(2).into_iter().rev()", "C0(){L1(7).id=13 L1((1, 2)).id=7} S(1) S(0)", p1239),
    ("C0 { ..s(2).into_iter().rev() L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) } ..s(2).into_iter().rev()", "C0(){S(1) S(0) L1(1).id=7} S(1) S(0)", p1240),
    ("C0 { C0 {  } L1(\"x\".to_string(), id: b'c') } ..s(2).into_iter().rev()", "C0(){C0(){} L1(\"x\").id=99} S(1) S(0)", p1241),
    ("C0 { L1(P { x: a }.x, id: <i32>::MIN) ..s(2).into_iter().rev() } ..s(2).into_iter().rev()", "C0(){L1(7).id=-2147483648 S(1) S(0)} S(1) S(0)", p1242),
    ("C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() } ..s(2).into_iter().rev()", "C0(){S(1) S(0) S(1) S(0)} S(1) S(0)", p1243),
    ("C0 { C0 {  } ..s(2).into_iter().rev() } ..s(2).into_iter().rev()", "C0(){C0(){} S(1) S(0)} S(1) S(0)", p1244),
    ("C0 { L1([1, 2], id: (1, \"t\")) C0 {  } } ..s(2).into_iter().rev()", "C0(){L1([1, 2]).id=(1, \"t\") C0(){}} S(1) S(0)", p1245),
    ("C0 { ..s(2).into_iter().rev() C0 {  } } ..s(2).into_iter().rev()", "C0(){S(1) S(0) C0(){}} S(1) S(0)", p1246),
    ("C0 { C0 {  } C0 {  } } ..s(2).into_iter().rev()", "C0(){C0(){} C0(){}} S(1) S(0)", p1247),
    ("C0 { C0 { L1(1, id: -1) } } ..s(2).into_iter().rev()", "C0(){C0(){L1(1).id=-1}} S(1) S(0)", p1248),
    ("C0 { C0 { ..s(2).into_iter().rev() } } ..s(2).into_iter().rev()", "C0(){C0(){S(1) S(0)}} S(1) S(0)", p1249),
    ("C0 { C0 { C0 {  } } } ..s(2).into_iter().rev()", "C0(){C0(){C0(){}}} S(1) S(0)", p1250),
    ("C0 { L1(i32::MAX, id: tick()) L1(P { x: a }.x, id: <i32>::MIN) } C0 {  }", "C0(){L1(2147483647).id=tick L1(7).id=-2147483648} C0(){}", p1251),
    ("C0 { ..s(2).into_iter().rev() L1(a, id: a + 2 * 3) } C0 {  }", "C0(){S(1) S(0) L1(7).id=13} C0(){}", p1252),
    ("C0 { C0 {  } L1(s(2).len(), id: &a) } C0 {  }", "C0(){C0(){} L1(2).id=7} C0(){}", p1253),
    ("C0 { L1(i32::MAX, id: tick()) ..s(2).into_iter().rev() } C0 {  }", "C0(){L1(2147483647).id=tick S(1) S(0)} C0(){}", p1254),
    ("C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() } C0 {  }", "C0(){S(1) S(0) S(1) S(0)} C0(){}", p1255),
    ("C0 { C0 {  } ..s(2).into_iter().rev() } C0 {  }", "C0(){C0(){} S(1) S(0)} C0(){}", p1256),
    ("C0 { L1(s(2).len(), id: &a) C0 {  } } C0 {  }", "C0(){L1(2).id=7 C0(){}} C0(){}", p1257),
    ("C0 { ..s(2).into_iter().rev() C0 {  } } C0 {  }", "C0(){S(1) S(0) C0(){}} C0(){}", p1258),
    ("C0 { C0 {  } C0 {  } } C0 {  }", "C0(){C0(){} C0(){}} C0(){}", p1259),
    ("C0 { C0 { L1(s(2).len(), id: &a) } } C0 {  }", "C0(){C0(){L1(2).id=7}} C0(){}", p1260),
    ("C0 { C0 { ..s(2).into_iter().rev() } } C0 {  }", "C0(){C0(){S(1) S(0)}} C0(){}", p1261),
    ("C0 { C0 { C0 {  } } } C0 {  }", "C0(){C0(){C0(){}}} C0(){}", p1262),
    ("C0 { L1(s(2).len(), id: &a) L1((|v: i32| v + 1)(a), id: a < 9) L1(\"x\".to_string(), id: b'c') }", "C0(){L1(2).id=7 L1(8).id=true L1(\"x\").id=99}", p1263),
    ("C0 { ..s(2).into_iter().rev() L1(P { x: a }.x, id: <i32>::MIN) L1(r#\"q\"#, id: *&a) }", "C0(){S(1) S(0) L1(7).id=-2147483648 L1(\"q\").id=7}", p1264),
    ("C0 { C0 {  } L1(m::f(1, 2), id: a as u8) L1([1, 2], id: (1, \"t\")) }", "C0(){C0(){} L1((1, 2)).id=7 L1([1, 2]).id=(1, \"t\")}", p1265),
    ("C0 { L1(s(2).len(), id: &a) ..s(2).into_iter().rev() L1((|v: i32| v + 1)(a), id: a < 9) }", "C0(){L1(2).id=7 S(1) S(0) L1(8).id=true}", p1266),
    ("C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() L1(i32::MAX, id: tick()) }", "C0(){S(1) S(0) S(1) S(0) L1(2147483647).id=tick}", p1267),
    ("C0 { C0 {  } ..s(2).into_iter().rev() L1(1, id: -1) }", "C0(){C0(){} S(1) S(0) L1(1).id=-1}", p1268),
    ("C0 { L1(m::f(1, 2), id: a as u8) C0 {  } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }", "C0(){L1((1, 2)).id=7 C0(){} L1(1).id=7}", p1269),
    ("C0 { ..s(2).into_iter().rev() C0 {  } L1(\"x\".to_string(), id: b'c') }", "C0(){S(1) S(0) C0(){} L1(\"x\").id=99}", p1270),
    ("C0 { C0 {  } C0 {  } L1(1, id: -1) }", "C0(){C0(){} C0(){} L1(1).id=-1}", p1271),
    ("C0 { L1(m::f(1, 2), id: a as u8) L1([1, 2], id: (1, \"t\")) ..s(2).into_iter().rev() }", "C0(){L1((1, 2)).id=7 L1([1, 2]).id=(1, \"t\") S(1) S(0)}", p1272),
    ("C0 { ..s(2).into_iter().rev() L1(s(2).len(), id: &a) ..s(2).into_iter().rev() }", "C0(){S(1) S(0) L1(2).id=7 S(1) S(0)}", p1273),
    ("C0 { C0 {  } L1(i32::MAX, id: tick()) ..s(2).into_iter().rev() }", "C0(){C0(){} L1(2147483647).id=tick S(1) S(0)}", p1274),
    ("C0 { L1(r#\"q\"#, id: *&a) ..s(2).into_iter().rev() ..s(2).into_iter().rev() }", "C0(){L1(\"q\").id=7 S(1) S(0) S(1) S(0)}", p1275),
    ("C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() ..s(2).into_iter().rev() }", "C0(){S(1) S(0) S(1) S(0) S(1) S(0)}", p1276),
    ("C0 { C0 {  } ..s(2).into_iter().rev() ..s(2).into_iter().rev() }", "C0(){C0(){} S(1) S(0) S(1) S(0)}", p1277),
    ("C0 { L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) C0 {  } ..s(2).into_iter().rev() }", "C0(){L1(1).id=7 C0(){} S(1) S(0)}", p1278),
    ("C0 { ..s(2).into_iter().rev() C0 {  } ..s(2).into_iter().rev() }", "C0(){S(1) S(0) C0(){} S(1) S(0)}", p1279),
    ("C0 { C0 {  } C0 {  } ..s(2).into_iter().rev() }", "C0(){C0(){} C0(){} S(1) S(0)}", p1280),
    ("C0 { L1(a, id: a + 2 * 3) L1(m::f(1, 2), id: a as u8) C0 {  } }", "C0(){L1(7).id=13 L1((1, 2)).id=7 C0(){}}", p1281),
    ("C0 { ..s(2).into_iter().rev() L1(s(2).len(), id: &a) C0 {  } }", "C0(){S(1) S(0) L1(2).id=7 C0(){}}", p1282),
    ("C0 { C0 {  } L1(P { x: a }.x, id: <i32>::MIN) C0 {  } }", "C0(){C0(){} L1(7).id=-2147483648 C0(){}}", p1283),
    ("C0 { L1(a, id: a + 2 * 3) ..s(2).into_iter().rev() C0 {  } }", "C0(){L1(7).id=13 S(1) S(0) C0(){}}", p1284),
    ("C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() C0 {  } }", "C0(){S(1) S(0) S(1) S(0) C0(){}}", p1285),
    ("C0 { C0 {  } ..s(2).into_iter().rev() C0 {  } }", "C0(){C0(){} S(1) S(0) C0(){}}", p1286),
    ("C0 { L1(P { x: a }.x, id: <i32>::MIN) C0 {  } C0 {  } }", "C0(){L1(7).id=-2147483648 C0(){} C0(){}}", p1287),
    ("C0 { ..s(2).into_iter().rev() C0 {  } C0 {  } }", "C0(){S(1) S(0) C0(){} C0(){}}", p1288),
    ("C0 { C0 {  } C0 {  } C0 {  } }", "C0(){C0(){} C0(){} C0(){}}", p1289),
    ("C0 { L1(P { x: a }.x, id: <i32>::MIN) C0 { L1(r#\"q\"#, id: *&a) } }", "C0(){L1(7).id=-2147483648 C0(){L1(\"q\").id=7}}", p1290),
    ("C0 { ..s(2).into_iter().rev() C0 { L1(m::f(1, 2), id: a as u8) } }", "C0(){S(1) S(0) C0(){L1((1, 2)).id=7}}", p1291),
    ("C0 { C0 {  } C0 { L1((|v: i32| v + 1)(a), id: a < 9) } }", "C0(){C0(){} C0(){L1(8).id=true}}", p1292),
    ("C0 { L1(P { x: a }.x, id: <i32>::MIN) C0 { ..s(2).into_iter().rev() } }", "C0(){L1(7).id=-2147483648 C0(){S(1) S(0)}}", p1293),
    ("C0 { ..s(2).into_iter().rev() C0 { ..s(2).into_iter().rev() } }", "C0(){S(1) S(0) C0(){S(1) S(0)}}", p1294),
    ("C0 { C0 {  } C0 { ..s(2).into_iter().rev() } }", "C0(){C0(){} C0(){S(1) S(0)}}", p1295),
    ("C0 { L1((|v: i32| v + 1)(a), id: a < 9) C0 { C0 {  } } }", "C0(){L1(8).id=true C0(){C0(){}}}", p1296),
    ("C0 { ..s(2).into_iter().rev() C0 { C0 {  } } }", "C0(){S(1) S(0) C0(){C0(){}}}", p1297),
    ("C0 { C0 {  } C0 { C0 {  } } }", "C0(){C0(){} C0(){C0(){}}}", p1298),
    ("C0 { C0 { L1((|v: i32| v + 1)(a), id: a < 9) } L1(i32::MAX, id: tick()) }", "C0(){C0(){L1(8).id=true} L1(2147483647).id=tick}", p1299),
    ("C0 { C0 { ..s(2).into_iter().rev() } L1(1, id: -1) }", "C0(){C0(){S(1) S(0)} L1(1).id=-1}", p1300),
    ("C0 { C0 { C0 {  } } L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }", "C0(){C0(){C0(){}} L1(1).id=7}", p1301),
    ("C0 { C0 { L1((|v: i32| v + 1)(a), id: a < 9) } ..s(2).into_iter().rev() }", "C0(){C0(){L1(8).id=true} S(1) S(0)}", p1302),
    ("C0 { C0 { ..s(2).into_iter().rev() } ..s(2).into_iter().rev() }", "C0(){C0(){S(1) S(0)} S(1) S(0)}", p1303),
    ("C0 { C0 { C0 {  } } ..s(2).into_iter().rev() }", "C0(){C0(){C0(){}} S(1) S(0)}", p1304),
    ("C0 { C0 { L1([1, 2], id: (1, \"t\")) } C0 {  } }", "C0(){C0(){L1([1, 2]).id=(1, \"t\")} C0(){}}", p1305),
    ("C0 { C0 { ..s(2).into_iter().rev() } C0 {  } }", "C0(){C0(){S(1) S(0)} C0(){}}", p1306),
    ("C0 { C0 { C0 {  } } C0 {  } }", "C0(){C0(){C0(){}} C0(){}}", p1307),
    ("C0 { C0 { L1([1, 2], id: (1, \"t\")) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) } }", "C0(){C0(){L1([1, 2]).id=(1, \"t\") L1(1).id=7}}", p1308),
    ("C0 { C0 { ..s(2).into_iter().rev() L1(\"x\".to_string(), id: b'c') } }", "C0(){C0(){S(1) S(0) L1(\"x\").id=99}}", p1309),
    ("C0 { C0 { C0 {  } L1(1, id: -1) } }", "C0(){C0(){C0(){} L1(1).id=-1}}", p1310),
    ("C0 { C0 { L1([1, 2], id: (1, \"t\")) ..s(2).into_iter().rev() } }", "C0(){C0(){L1([1, 2]).id=(1, \"t\") S(1) S(0)}}", p1311),
    ("C0 { C0 { ..s(2).into_iter().rev() ..s(2).into_iter().rev() } }", "C0(){C0(){S(1) S(0) S(1) S(0)}}", p1312),
    ("C0 { C0 { C0 {  } ..s(2).into_iter().rev() } }", "C0(){C0(){C0(){} S(1) S(0)}}", p1313),
    ("C0 { C0 { L1(1, id: -1) C0 {  } } }", "C0(){C0(){L1(1).id=-1 C0(){}}}", p1314),
    ("C0 { C0 { ..s(2).into_iter().rev() C0 {  } } }", "C0(){C0(){S(1) S(0) C0(){}}}", p1315),
    ("C0 { C0 { C0 {  } C0 {  } } }", "C0(){C0(){C0(){} C0(){}}}", p1316),
    ("C0 { C0 { C0 { L1(1, id: -1) } } }", "C0(){C0(){C0(){L1(1).id=-1}}}", p1317),
    ("C0 { C0 { C0 { ..s(2).into_iter().rev() } } }", "C0(){C0(){C0(){S(1) S(0)}}}", p1318),
    ("C0 { C0 { C0 { C0 {  } } } }", "C0(){C0(){C0(){C0(){}}}}", p1319),
    ("..Some(widget! { L0 })", "L0()", p1320),
    ("..Some(widget! { L0() })", "L0()", p1321),
    ("..Some(widget! { L1(m::f(1, 2)) })", "L1((1, 2))", p1322),
    ("..Some(widget! { L1([1, 2], id: (1, \"t\")) })", "L1([1, 2]).id=(1, \"t\")", p1323),
    ("..Some(widget! { L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) })", "L0().classes=1.id=7", p1324),
    ("..Some(widget! { L2(s(2).len(), &a, n: !true,) })", "L2(2|7).n=false", p1325),
    ("..Some(widget! { F1(|v: i32| v + 1, n: (|v: i32| v + 1)(a)) })", "F1(11).n=8", p1326),
    ("..Some(widget! { C0 {  } })", "C0(){}", p1327),
    ("..Some(widget! { C0(id: i32::MAX) {  } })", "C0().id=2147483647{}", p1328),
    ("..Some(widget! { C1(P { x: a }.x) {  } })", "C1(7){}", p1329),
    ("..Some(widget! { C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  } })", "C2(\"q\"|7).n=true.id=\"q\"{}", p1330),
    ("..Some(widget! { C0 { L1(1) } })", "C0(){L1(1)}", p1331),
    ("..Some(widget! { C0 { ..s(2) } })", "C0(){S(0) S(1)}", p1332),
    ("..Some(widget! { C0 { ..v } })", "C0(){V()}", p1333),
    ("..Some(widget! { C0 { C0 {  } } })", "C0(){C0(){}}", p1334),
    ("..Some(widget! { C0 { C0(id: (|v: i32| v + 1)(a)) {  } } })", "C0(){C0().id=8{}}", p1335),
    ("..Some(widget! { C0 { C1(i32::MAX) {  } } })", "C0(){C1(2147483647){}}", p1336),
    ("..Some(widget! { C0 { C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  } } })", "C0(){C2(\"q\"|7).n=true.id=\"q\"{}}", p1337),
    ("..Some(widget! { C0(id: m::f(1, 2)) { L1(a) } })", "C0().id=(1, 2){L1(7)}", p1338),
    ("..Some(widget! { C0(id: [1, 2]) { ..s(2) } })", "C0().id=[1, 2]{S(0) S(1)}", p1339),
    ("..Some(widget! { C0(id: if a > 3 { 1 } else { 2 }) { ..v } })", "C0().id=1{V()}", p1340),
    ("..Some(widget! { C0(id: (|v: i32| v + 1)(a)) { C0 {  } } })", "C0().id=8{C0(){}}", p1341),
    ("..Some(widget! { C0(id: i32::MAX) { C0(id: \"x\".to_string()) {  } } })", "C0().id=2147483647{C0().id=\"x\"{}}", p1342),
    ("..Some(widget! { C0(id: r#\"q\"#) { C1(P { x: a }.x) {  } } })", "C0().id=\"q\"{C1(7){}}", p1343),
    ("..Some(widget! { C0(id: a) { C2(1, -1, n: \"a: b\", id: 1) {  } } })", "C0().id=7{C2(1|-1).n=\"a: b\".id=1{}}", p1344),
    ("..Some(widget! { C1([1, 2]) { L1(m::f(1, 2)) } })", "C1([1, 2]){L1((1, 2))}", p1345),
    ("..Some(widget! { C1(if a > 3 { 1 } else { 2 }) { ..s(2) } })", "C1(1){S(0) S(1)}", p1346),
    ("..Some(widget! { C1(s(2).len()) { ..v } })", "C1(2){V()}", p1347),
    ("..Some(widget! { C1(\"x\".to_string()) { C0 {  } } })", "C1(\"x\"){C0(){}}", p1348),
    ("..Some(widget! { C1(P { x: a }.x) { C0(id: i32::MAX) {  } } })", "C1(7){C0().id=2147483647{}}", p1349),
    ("..Some(widget! { C1(1) { C1(r#\"q\"#) {  } } })", "C1(1){C1(\"q\"){}}", p1350),
    ("..Some(widget! { C1(m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) {  } } })", "C1((1, 2)){C2(7|13).n=5.id=7{}}", p1351),
    ("..Some(widget! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { L1([1, 2]) } })", "C2(1|7).n=\"s\".id=1{L1([1, 2])}", p1352),
    ("..Some(widget! { C2(s(2).len(), &a, n: !true, id: s(2).len()) { ..s(2) } })", "C2(2|7).n=false.id=2{S(0) S(1)}", p1353),
    ("..Some(widget! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { ..v } })", "C2(8|true).n=Some(1).id=8{V()}", p1354),
    ("..Some(widget! { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C0 {  } } })", "C2(2147483647|tick).n=[7, 7].id=2147483647{C0(){}}", p1355),
    ("..Some(widget! { C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C0(id: P { x: a }.x) {  } } })", "C2(\"q\"|7).n=true.id=\"q\"{C0().id=7{}}", p1356),
    ("..Some(widget! { C2(a, a + 2 * 3, n: m::X, id: a) { C1(1) {  } } })", "C2(7|13).n=5.id=7{C1(1){}}", p1357),
    ("..Some(widget! { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) {  } } })", "C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{C2((1, 2)|7).n=\"7,2\".id=(1, 2){}}", p1358),
    ("..Some(widget! { C0 { L1(if a > 3 { 1 } else { 2 }) L1(s(2).len()) } })", "C0(){L1(1) L1(2)}", p1359),
    ("..Some(widget! { C0 { ..s(2) L1(\"x\".to_string()) } })", "C0(){S(0) S(1) L1(\"x\")}", p1360),
    ("..Some(widget! { C0 { C0 {  } L1(r#\"q\"#) } })", "C0(){C0(){} L1(\"q\")}", p1361),
    ("..Some(widget! { C0 { C2(a, a + 2 * 3, n: m::X, id: a) {  } L1(m::f(1, 2)) } })", "C0(){C2(7|13).n=5.id=7{} L1((1, 2))}", p1362),
    ("..Some(widget! { C0 { L1(if a > 3 { 1 } else { 2 }) ..s(2) } })", "C0(){L1(1) S(0) S(1)}", p1363),
    ("..Some(widget! { C0 { ..s(2) ..s(2) } })", "C0(){S(0) S(1) S(0) S(1)}", p1364),
    ("..Some(widget! { C0 { C0 {  } ..s(2) } })", "C0(){C0(){} S(0) S(1)}", p1365),
    ("..Some(widget! { C0 { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } ..s(2) } })", "C0(){C2(7|-2147483648).n=7.id=7{} S(0) S(1)}", p1366),
    ("..Some(widget! { C0 { L1(1) C0 {  } } })", "C0(){L1(1) C0(){}}", p1367),
    ("..Some(widget! { C0 { ..s(2) C0 {  } } })", "C0(){S(0) S(1) C0(){}}", p1368),
    ("..Some(widget! { C0 { C0 {  } C0 {  } } })", "C0(){C0(){} C0(){}}", p1369),
    ("..Some(widget! { C0 { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } C0 {  } } })", "C0(){C2(2147483647|tick).n=[7, 7].id=2147483647{} C0(){}}", p1370),
    ("..Some(widget! { C0 { L1(1) C2(a, a + 2 * 3, n: m::X, id: a) {  } } })", "C0(){L1(1) C2(7|13).n=5.id=7{}}", p1371),
    ("..Some(widget! { C0 { ..s(2) C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) {  } } })", "C0(){S(0) S(1) C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{}}", p1372),
    ("..Some(widget! { C0 { C0 {  } C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) {  } } })", "C0(){C0(){} C2(8|true).n=Some(1).id=8{}}", p1373),
    ("..Some(widget! { C0 { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) {  } } })", "C0(){C2(2147483647|tick).n=[7, 7].id=2147483647{} C2(7|-2147483648).n=7.id=7{}}", p1374),
    ("..Some(widget! { C0 { C0 { L1(1) } } })", "C0(){C0(){L1(1)}}", p1375),
    ("..Some(widget! { C0 { C0 { ..s(2) } } })", "C0(){C0(){S(0) S(1)}}", p1376),
    ("..Some(widget! { C0 { C0 { C0 {  } } } })", "C0(){C0(){C0(){}}}", p1377),
    ("..Some(widget! { C0 { C0 { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } } } })", "C0(){C0(){C2(2147483647|tick).n=[7, 7].id=2147483647{}}}", p1378),
    ("..Some(widget! { C0 { C2(a, a + 2 * 3, n: m::X, id: a) { L1(1) } } })", "C0(){C2(7|13).n=5.id=7{L1(1)}}", p1379),
    ("..Some(widget! { C0 { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { ..s(2) } } })", "C0(){C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{S(0) S(1)}}", p1380),
    ("..Some(widget! { C0 { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C0 {  } } } })", "C0(){C2(8|true).n=Some(1).id=8{C0(){}}}", p1381),
    ("..Some(widget! { C0 { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } } } })", "C0(){C2(7|-2147483648).n=7.id=7{C2(2147483647|tick).n=[7, 7].id=2147483647{}}}", p1382),
    ("..Some(widget! { C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { L1(1) L1(a) } })", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){L1(1) L1(7)}", p1383),
    ("..Some(widget! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { ..s(2) L1([1, 2]) } })", "C2(1|7).n=\"s\".id=1{S(0) S(1) L1([1, 2])}", p1384),
    ("..Some(widget! { C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { C0 {  } L1((|v: i32| v + 1)(a)) } })", "C2(\"x\"|99).n=1..3.id=\"x\"{C0(){} L1(8)}", p1385),
    ("..Some(widget! { C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } L1(P { x: a }.x) } })", "C2(\"q\"|7).n=true.id=\"q\"{C2(2147483647|tick).n=[7, 7].id=2147483647{} L1(7)}", p1386),
    ("..Some(widget! { C2(a, a + 2 * 3, n: m::X, id: a) { L1(1) ..s(2) } })", "C2(7|13).n=5.id=7{L1(1) S(0) S(1)}", p1387),
    ("..Some(widget! { C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { ..s(2) ..s(2) } })", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){S(0) S(1) S(0) S(1)}", p1388),
    ("..Some(widget! { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { C0 {  } ..s(2) } })", "C2(1|7).n=\"s\".id=1{C0(){} S(0) S(1)}", p1389),
    ("..Some(widget! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } ..s(2) } })", "C2(8|true).n=Some(1).id=8{C2(2|7).n=false.id=2{} S(0) S(1)}", p1390),
    ("..Some(widget! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L1(\"x\".to_string()) C0 {  } } })", "C2(7|-2147483648).n=7.id=7{L1(\"x\") C0(){}}", p1391),
    ("..Some(widget! { C2(1, -1, n: \"a: b\", id: 1) { ..s(2) C0 {  } } })", "C2(1|-1).n=\"a: b\".id=1{S(0) S(1) C0(){}}", p1392),
    ("..Some(widget! { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { C0 {  } C0 {  } } })", "C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{C0(){} C0(){}}", p1393),
    ("..Some(widget! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } C0 {  } } })", "C2(8|true).n=Some(1).id=8{C2(1|7).n=\"s\".id=1{} C0(){}}", p1394),
    ("..Some(widget! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L1(\"x\".to_string()) C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) {  } } })", "C2(7|-2147483648).n=7.id=7{L1(\"x\") C2(2147483647|tick).n=[7, 7].id=2147483647{}}", p1395),
    ("..Some(widget! { C2(1, -1, n: \"a: b\", id: 1) { ..s(2) C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) {  } } })", "C2(1|-1).n=\"a: b\".id=1{S(0) S(1) C2(\"q\"|7).n=true.id=\"q\"{}}", p1396),
    ("..Some(widget! { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { C0 {  } C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) {  } } })", "C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{C0(){} C2((1, 2)|7).n=\"7,2\".id=(1, 2){}}", p1397),
    ("..Some(widget! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } C2(s(2).len(), &a, n: !true, id: s(2).len()) {  } } })", "C2(8|true).n=Some(1).id=8{C2(1|7).n=\"s\".id=1{} C2(2|7).n=false.id=2{}}", p1398),
    ("..Some(widget! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { C0 { L1(\"x\".to_string()) } } })", "C2(7|-2147483648).n=7.id=7{C0(){L1(\"x\")}}", p1399),
    ("..Some(widget! { C2(1, -1, n: \"a: b\", id: 1) { C0 { ..s(2) } } })", "C2(1|-1).n=\"a: b\".id=1{C0(){S(0) S(1)}}", p1400),
    ("..Some(widget! { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { C0 { C0 {  } } } })", "C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{C0(){C0(){}}}", p1401),
    ("..Some(widget! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C0 { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } } } })", "C2(8|true).n=Some(1).id=8{C0(){C2(1|7).n=\"s\".id=1{}}}", p1402),
    ("..Some(widget! { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L1(\"x\".to_string()) } } })", "C2(7|-2147483648).n=7.id=7{C2(2147483647|tick).n=[7, 7].id=2147483647{L1(\"x\")}}", p1403),
    ("..Some(widget! { C2(1, -1, n: \"a: b\", id: 1) { C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { ..s(2) } } })", "C2(1|-1).n=\"a: b\".id=1{C2(\"q\"|7).n=true.id=\"q\"{S(0) S(1)}}", p1404),
    ("..Some(widget! { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C0 {  } } } })", "C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{C2((1, 2)|7).n=\"7,2\".id=(1, 2){C0(){}}}", p1405),
    ("..Some(widget! { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) {  } } } })", "C2(8|true).n=Some(1).id=8{C2(2|7).n=false.id=2{C2(1|7).n=\"s\".id=1{}}}", p1406),
    ("L0(n: 1, n: 2)", "L0().n=1.n=2", p1407),
    ("C1(3, id: 1, n: 1, id: 2) { L1(1) }", "C1(3).id=1.n=1.id=2{L1(1)}", p1408),
    ("L2(1, 1, classes: 1, n: 1, id: 1)", "L2(1|1).classes=1.n=1.id=1", p1409),
    ("L0(n: 1, n: 2,)", "L0().n=1.n=2", p1410),
    ("C1(3, id: 1, n: 1, id: 2,) { L1(1,) }", "C1(3).id=1.n=1.id=2{L1(1)}", p1411),
    ("L2(1, 1, classes: 1, n: 1, id: 1,)", "L2(1|1).classes=1.n=1.id=1", p1412),
    ("L0(n: -1, n: 2)", "L0().n=-1.n=2", p1413),
    ("C1(3, id: -1, n: 1, id: 2) { L1(-1) }", "C1(3).id=-1.n=1.id=2{L1(-1)}", p1414),
    ("L2(-1, -1, classes: -1, n: -1, id: -1)", "L2(-1|-1).classes=-1.n=-1.id=-1", p1415),
    ("L0(n: -1, n: 2,)", "L0().n=-1.n=2", p1416),
    ("C1(3, id: -1, n: 1, id: 2,) { L1(-1,) }", "C1(3).id=-1.n=1.id=2{L1(-1)}", p1417),
    ("L2(-1, -1, classes: -1, n: -1, id: -1,)", "L2(-1|-1).classes=-1.n=-1.id=-1", p1418),
    ("L0(n: \"a: b\", n: 2)", "L0().n=\"a: b\".n=2", p1419),
    ("C1(3, id: \"a: b\", n: 1, id: 2) { L1(\"a: b\") }", "C1(3).id=\"a: b\".n=1.id=2{L1(\"a: b\")}", p1420),
    ("L2(\"a: b\", \"a: b\", classes: \"a: b\", n: \"a: b\", id: \"a: b\")", "L2(\"a: b\"|\"a: b\").classes=\"a: b\".n=\"a: b\".id=\"a: b\"", p1421),
    ("L0(n: \"a: b\", n: 2,)", "L0().n=\"a: b\".n=2", p1422),
    ("C1(3, id: \"a: b\", n: 1, id: 2,) { L1(\"a: b\",) }", "C1(3).id=\"a: b\".n=1.id=2{L1(\"a: b\")}", p1423),
    ("L2(\"a: b\", \"a: b\", classes: \"a: b\", n: \"a: b\", id: \"a: b\",)", "L2(\"a: b\"|\"a: b\").classes=\"a: b\".n=\"a: b\".id=\"a: b\"", p1424),
    ("L0(n: a, n: 2)", "L0().n=7.n=2", p1425),
    ("C1(3, id: a, n: 1, id: 2) { L1(a) }", "C1(3).id=7.n=1.id=2{L1(7)}", p1426),
    ("L2(a, a, classes: a, n: a, id: a)", "L2(7|7).classes=7.n=7.id=7", p1427),
    ("L0(n: a, n: 2,)", "L0().n=7.n=2", p1428),
    ("C1(3, id: a, n: 1, id: 2,) { L1(a,) }", "C1(3).id=7.n=1.id=2{L1(7)}", p1429),
    ("L2(a, a, classes: a, n: a, id: a,)", "L2(7|7).classes=7.n=7.id=7", p1430),
    ("L0(n: a + 2 * 3, n: 2)", "L0().n=13.n=2", p1431),
    ("C1(3, id: a + 2 * 3, n: 1, id: 2) { L1(a + 2 * 3) }", "C1(3).id=13.n=1.id=2{L1(13)}", p1432),
    ("L2(a + 2 * 3, a + 2 * 3, classes: a + 2 * 3, n: a + 2 * 3, id: a + 2 * 3)", "L2(13|13).classes=13.n=13.id=13", p1433),
    ("L0(n: a + 2 * 3, n: 2,)", "L0().n=13.n=2", p1434),
    ("C1(3, id: a + 2 * 3, n: 1, id: 2,) { L1(a + 2 * 3,) }", "C1(3).id=13.n=1.id=2{L1(13)}", p1435),
    ("L2(a + 2 * 3, a + 2 * 3, classes: a + 2 * 3, n: a + 2 * 3, id: a + 2 * 3,)", "L2(13|13).classes=13.n=13.id=13", p1436),
    ("L0(n: m::X, n: 2)", "L0().n=5.n=2", p1437),
    ("C1(3, id: m::X, n: 1, id: 2) { L1(m::X) }", "C1(3).id=5.n=1.id=2{L1(5)}", p1438),
    ("L2(m::X, m::X, classes: m::X, n: m::X, id: m::X)", "L2(5|5).classes=5.n=5.id=5", p1439),
    ("L0(n: m::X, n: 2,)", "L0().n=5.n=2", p1440),
    ("C1(3, id: m::X, n: 1, id: 2,) { L1(m::X,) }", "C1(3).id=5.n=1.id=2{L1(5)}", p1441),
    ("L2(m::X, m::X, classes: m::X, n: m::X, id: m::X,)", "L2(5|5).classes=5.n=5.id=5", p1442),
    ("L0(n: m::f(1, 2), n: 2)", "L0().n=(1, 2).n=2", p1443),
    ("C1(3, id: m::f(1, 2), n: 1, id: 2) { L1(m::f(1, 2)) }", "C1(3).id=(1, 2).n=1.id=2{L1((1, 2))}", p1444),
    ("L2(m::f(1, 2), m::f(1, 2), classes: m::f(1, 2), n: m::f(1, 2), id: m::f(1, 2))", "L2((1, 2)|(1, 2)).classes=(1, 2).n=(1, 2).id=(1, 2)", p1445),
    ("L0(n: m::f(1, 2), n: 2,)", "L0().n=(1, 2).n=2", p1446),
    ("C1(3, id: m::f(1, 2), n: 1, id: 2,) { L1(m::f(1, 2),) }", "C1(3).id=(1, 2).n=1.id=2{L1((1, 2))}", p1447),
    ("L2(m::f(1, 2), m::f(1, 2), classes: m::f(1, 2), n: m::f(1, 2), id: m::f(1, 2),)", "L2((1, 2)|(1, 2)).classes=(1, 2).n=(1, 2).id=(1, 2)", p1448),
    ("L0(n: a as u8, n: 2)", "L0().n=7.n=2", p1449),
    ("C1(3, id: a as u8, n: 1, id: 2) { L1(a as u8) }", "C1(3).id=7.n=1.id=2{L1(7)}", p1450),
    ("L2(a as u8, a as u8, classes: a as u8, n: a as u8, id: a as u8)", "L2(7|7).classes=7.n=7.id=7", p1451),
    ("L0(n: a as u8, n: 2,)", "L0().n=7.n=2", p1452),
    ("C1(3, id: a as u8, n: 1, id: 2,) { L1(a as u8,) }", "C1(3).id=7.n=1.id=2{L1(7)}", p1453),
    ("L2(a as u8, a as u8, classes: a as u8, n: a as u8, id: a as u8,)", "L2(7|7).classes=7.n=7.id=7", p1454),
    ("C0 { L0 L1(\"x\".to_string()) }", "C0(){L0() L1(\"x\")}", p1455),
    ("C0(id: a) { L0 L1(r#\"q\"#) }", "C0().id=7{L0() L1(\"q\")}", p1456),
    ("C1(if a > 3 { 1 } else { 2 }) { L0 L1(m::f(1, 2)) }", "C1(1){L0() L1((1, 2))}", p1457),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L0 L1(s(2).len()) }", "C2(\"x\"|99).n=1..3.id=\"x\"{L0() L1(2)}", p1458),
    ("C0 { L0 ..s(2).into_iter().rev() }", "C0(){L0() S(1) S(0)}", p1459),
    ("C0(id: 1) { L0 ..s(2).into_iter().rev() }", "C0().id=1{L0() S(1) S(0)}", p1460),
    ("C1(m::f(1, 2)) { L0 ..s(2).into_iter().rev() }", "C1((1, 2)){L0() S(1) S(0)}", p1461),
    ("C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { L0 ..s(2).into_iter().rev() }", "C2(1|7).n=\"s\".id=1{L0() S(1) S(0)}", p1462),
    ("C0 { C0 { L0 L1(s(2).len()) } }", "C0(){C0(){L0() L1(2)}}", p1463),
    ("C0(id: a) { C0(id: 1) { L0 L1(P { x: a }.x) } }", "C0().id=7{C0().id=1{L0() L1(7)}}", p1464),
    ("C1(s(2).len()) { C1(if a > 3 { 1 } else { 2 }) { L0 L1(m::f(1, 2)) } }", "C1(2){C1(1){L0() L1((1, 2))}}", p1465),
    ("C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L0 L1((|v: i32| v + 1)(a)) } }", "C2(7|-2147483648).n=7.id=7{C2(2147483647|tick).n=[7, 7].id=2147483647{L0() L1(8)}}", p1466),
    ("C0 { C0 { L0 ..s(2).into_iter().rev() } }", "C0(){C0(){L0() S(1) S(0)}}", p1467),
    ("C0(id: if a > 3 { 1 } else { 2 }) { C0(id: [1, 2]) { L0 ..s(2).into_iter().rev() } }", "C0().id=1{C0().id=[1, 2]{L0() S(1) S(0)}}", p1468),
    ("C1(\"x\".to_string()) { C1((|v: i32| v + 1)(a)) { L0 ..s(2).into_iter().rev() } }", "C1(\"x\"){C1(8){L0() S(1) S(0)}}", p1469),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 ..s(2).into_iter().rev() } }", "C2(\"q\"|7).n=true.id=\"q\"{C2(7|-2147483648).n=7.id=7{L0() S(1) S(0)}}", p1470),
    ("C0 { L0 C0 { C0 { L0 L1(1) } } }", "C0(){L0() C0(){C0(){L0() L1(1)}}}", p1471),
    ("C0(id: 1) { L0 C0(id: P { x: a }.x) { C0(id: i32::MAX) { L0 L1((|v: i32| v + 1)(a)) } } }", "C0().id=1{L0() C0().id=7{C0().id=2147483647{L0() L1(8)}}}", p1472),
    ("C1((|v: i32| v + 1)(a)) { L0 C1(if a > 3 { 1 } else { 2 }) { C1([1, 2]) { L0 L1(a) } } }", "C1(8){L0() C1(1){C1([1, 2]){L0() L1(7)}}}", p1473),
    ("C2(a, a + 2 * 3, n: m::X, id: a) { L0 C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 L1(\"x\".to_string()) } } }", "C2(7|13).n=5.id=7{L0() C2(\"q\"|7).n=true.id=\"q\"{C2(7|-2147483648).n=7.id=7{L0() L1(\"x\")}}}", p1474),
    ("C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } }", "C0(){L0() C0(){C0(){L0() S(1) S(0)}}}", p1475),
    ("C0(id: 1) { L0 C0(id: P { x: a }.x) { C0(id: i32::MAX) { L0 ..s(2).into_iter().rev() } } }", "C0().id=1{L0() C0().id=7{C0().id=2147483647{L0() S(1) S(0)}}}", p1476),
    ("C1(s(2).len()) { L0 C1([1, 2]) { C1(m::f(1, 2)) { L0 ..s(2).into_iter().rev() } } }", "C1(2){L0() C1([1, 2]){C1((1, 2)){L0() S(1) S(0)}}}", p1477),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { L0 C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L0 ..s(2).into_iter().rev() } } }", "C2(\"q\"|7).n=true.id=\"q\"{L0() C2(2147483647|tick).n=[7, 7].id=2147483647{C2(\"x\"|99).n=1..3.id=\"x\"{L0() S(1) S(0)}}}", p1478),
    ("C0 { C0 { L0 C0 { C0 { L0 L1(1) } } } }", "C0(){C0(){L0() C0(){C0(){L0() L1(1)}}}}", p1479),
    ("C0(id: m::f(1, 2)) { C0(id: a) { L0 C0(id: r#\"q\"#) { C0(id: P { x: a }.x) { L0 L1(\"x\".to_string()) } } } }", "C0().id=(1, 2){C0().id=7{L0() C0().id=\"q\"{C0().id=7{L0() L1(\"x\")}}}}", p1480),
    ("C1(P { x: a }.x) { C1(i32::MAX) { L0 C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 L1([1, 2]) } } } }", "C1(7){C1(2147483647){L0() C1(8){C1(2){L0() L1([1, 2])}}}}", p1481),
    ("C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { L0 C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) { L0 L1(r#\"q\"#) } } } }", "C2(2|7).n=false.id=2{C2(1|7).n=\"s\".id=1{L0() C2((1, 2)|7).n=\"7,2\".id=(1, 2){C2(7|13).n=5.id=7{L0() L1(\"q\")}}}}", p1482),
    ("C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } }", "C0(){C0(){L0() C0(){C0(){L0() S(1) S(0)}}}}", p1483),
    ("C0(id: (|v: i32| v + 1)(a)) { C0(id: s(2).len()) { L0 C0(id: [1, 2]) { C0(id: m::f(1, 2)) { L0 ..s(2).into_iter().rev() } } } }", "C0().id=8{C0().id=2{L0() C0().id=[1, 2]{C0().id=(1, 2){L0() S(1) S(0)}}}}", p1484),
    ("C1(a) { C1(1) { L0 C1(P { x: a }.x) { C1(i32::MAX) { L0 ..s(2).into_iter().rev() } } } }", "C1(7){C1(1){L0() C1(7){C1(2147483647){L0() S(1) S(0)}}}}", p1485),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { L0 ..s(2).into_iter().rev() } } } }", "C2(\"x\"|99).n=1..3.id=\"x\"{C2(8|true).n=Some(1).id=8{L0() C2(1|7).n=\"s\".id=1{C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{L0() S(1) S(0)}}}}", p1486),
    ("C0 { L0 C0 { C0 { L0 C0 { C0 { L0 L1(i32::MAX) } } } } }", "C0(){L0() C0(){C0(){L0() C0(){C0(){L0() L1(2147483647)}}}}}", p1487),
    ("C0(id: [1, 2]) { L0 C0(id: a) { C0(id: 1) { L0 C0(id: P { x: a }.x) { C0(id: i32::MAX) { L0 L1((|v: i32| v + 1)(a)) } } } } }", "C0().id=[1, 2]{L0() C0().id=7{C0().id=1{L0() C0().id=7{C0().id=2147483647{L0() L1(8)}}}}}", p1488),
    ("C1(a) { L0 C1(r#\"q\"#) { C1(P { x: a }.x) { L0 C1(\"x\".to_string()) { C1((|v: i32| v + 1)(a)) { L0 L1(if a > 3 { 1 } else { 2 }) } } } } }", "C1(7){L0() C1(\"q\"){C1(7){L0() C1(\"x\"){C1(8){L0() L1(1)}}}}}", p1489),
    ("C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { L0 C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L0 C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { L0 L1(m::f(1, 2)) } } } } }", "C2(\"q\"|7).n=true.id=\"q\"{L0() C2(2147483647|tick).n=[7, 7].id=2147483647{C2(\"x\"|99).n=1..3.id=\"x\"{L0() C2(2|7).n=false.id=2{C2(1|7).n=\"s\".id=1{L0() L1((1, 2))}}}}}", p1490),
    ("C0 { L0 C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } }", "C0(){L0() C0(){C0(){L0() C0(){C0(){L0() S(1) S(0)}}}}}", p1491),
    ("C0(id: if a > 3 { 1 } else { 2 }) { L0 C0(id: m::f(1, 2)) { C0(id: a) { L0 C0(id: r#\"q\"#) { C0(id: P { x: a }.x) { L0 ..s(2).into_iter().rev() } } } } }", "C0().id=1{L0() C0().id=(1, 2){C0().id=7{L0() C0().id=\"q\"{C0().id=7{L0() S(1) S(0)}}}}}", p1492),
    ("C1(a) { L0 C1(r#\"q\"#) { C1(P { x: a }.x) { L0 C1(\"x\".to_string()) { C1((|v: i32| v + 1)(a)) { L0 ..s(2).into_iter().rev() } } } } }", "C1(7){L0() C1(\"q\"){C1(7){L0() C1(\"x\"){C1(8){L0() S(1) S(0)}}}}}", p1493),
    ("C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { L0 ..s(2).into_iter().rev() } } } } }", "C2(7|-2147483648).n=7.id=7{L0() C2(\"x\"|99).n=1..3.id=\"x\"{C2(8|true).n=Some(1).id=8{L0() C2(1|7).n=\"s\".id=1{C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{L0() S(1) S(0)}}}}}", p1494),
    ("C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 L1(r#\"q\"#) } } } } } }", "C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() L1(\"q\")}}}}}}", p1495),
    ("C0(id: \"x\".to_string()) { C0(id: (|v: i32| v + 1)(a)) { L0 C0(id: if a > 3 { 1 } else { 2 }) { C0(id: [1, 2]) { L0 C0(id: a) { C0(id: 1) { L0 L1(P { x: a }.x) } } } } } }", "C0().id=\"x\"{C0().id=8{L0() C0().id=1{C0().id=[1, 2]{L0() C0().id=7{C0().id=1{L0() L1(7)}}}}}}", p1496),
    ("C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 C1([1, 2]) { C1(m::f(1, 2)) { L0 C1(1) { C1(r#\"q\"#) { L0 L1(i32::MAX) } } } } } }", "C1(8){C1(2){L0() C1([1, 2]){C1((1, 2)){L0() C1(1){C1(\"q\"){L0() L1(2147483647)}}}}}}", p1497),
    ("C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { L0 C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) { L0 C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 L1(\"x\".to_string()) } } } } } }", "C2(2|7).n=false.id=2{C2(1|7).n=\"s\".id=1{L0() C2((1, 2)|7).n=\"7,2\".id=(1, 2){C2(7|13).n=5.id=7{L0() C2(\"q\"|7).n=true.id=\"q\"{C2(7|-2147483648).n=7.id=7{L0() L1(\"x\")}}}}}}", p1498),
    ("C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } } }", "C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() S(1) S(0)}}}}}}", p1499),
    ("C0(id: a) { C0(id: 1) { L0 C0(id: P { x: a }.x) { C0(id: i32::MAX) { L0 C0(id: (|v: i32| v + 1)(a)) { C0(id: s(2).len()) { L0 ..s(2).into_iter().rev() } } } } } }", "C0().id=7{C0().id=1{L0() C0().id=7{C0().id=2147483647{L0() C0().id=8{C0().id=2{L0() S(1) S(0)}}}}}}", p1500),
    ("C1(r#\"q\"#) { C1(P { x: a }.x) { L0 C1(\"x\".to_string()) { C1((|v: i32| v + 1)(a)) { L0 C1(if a > 3 { 1 } else { 2 }) { C1([1, 2]) { L0 ..s(2).into_iter().rev() } } } } } }", "C1(\"q\"){C1(7){L0() C1(\"x\"){C1(8){L0() C1(1){C1([1, 2]){L0() S(1) S(0)}}}}}}", p1501),
    ("C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L0 C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { L0 C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) { L0 ..s(2).into_iter().rev() } } } } } }", "C2(2147483647|tick).n=[7, 7].id=2147483647{C2(\"x\"|99).n=1..3.id=\"x\"{L0() C2(2|7).n=false.id=2{C2(1|7).n=\"s\".id=1{L0() C2((1, 2)|7).n=\"7,2\".id=(1, 2){C2(7|13).n=5.id=7{L0() S(1) S(0)}}}}}}", p1502),
    ("C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 L1(P { x: a }.x) } } } } } } }", "C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() L1(7)}}}}}}}", p1503),
    ("C0(id: r#\"q\"#) { L0 C0(id: i32::MAX) { C0(id: \"x\".to_string()) { L0 C0(id: s(2).len()) { C0(id: if a > 3 { 1 } else { 2 }) { L0 C0(id: m::f(1, 2)) { C0(id: a) { L0 L1(r#\"q\"#) } } } } } } }", "C0().id=\"q\"{L0() C0().id=2147483647{C0().id=\"x\"{L0() C0().id=2{C0().id=1{L0() C0().id=(1, 2){C0().id=7{L0() L1(\"q\")}}}}}}}", p1504),
    ("C1(1) { L0 C1(P { x: a }.x) { C1(i32::MAX) { L0 C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 C1([1, 2]) { C1(m::f(1, 2)) { L0 L1(1) } } } } } } }", "C1(1){L0() C1(7){C1(2147483647){L0() C1(8){C1(2){L0() C1([1, 2]){C1((1, 2)){L0() L1(1)}}}}}}}", p1505),
    ("C2(a, a + 2 * 3, n: m::X, id: a) { L0 C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { L0 L1(a) } } } } } } }", "C2(7|13).n=5.id=7{L0() C2(\"q\"|7).n=true.id=\"q\"{C2(7|-2147483648).n=7.id=7{L0() C2(\"x\"|99).n=1..3.id=\"x\"{C2(8|true).n=Some(1).id=8{L0() C2(1|7).n=\"s\".id=1{C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{L0() L1(7)}}}}}}}", p1506),
    ("C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } } } }", "C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() S(1) S(0)}}}}}}}", p1507),
    ("C0(id: a) { L0 C0(id: r#\"q\"#) { C0(id: P { x: a }.x) { L0 C0(id: \"x\".to_string()) { C0(id: (|v: i32| v + 1)(a)) { L0 C0(id: if a > 3 { 1 } else { 2 }) { C0(id: [1, 2]) { L0 ..s(2).into_iter().rev() } } } } } } }", "C0().id=7{L0() C0().id=\"q\"{C0().id=7{L0() C0().id=\"x\"{C0().id=8{L0() C0().id=1{C0().id=[1, 2]{L0() S(1) S(0)}}}}}}}", p1508),
    ("C1(a) { L0 C1(r#\"q\"#) { C1(P { x: a }.x) { L0 C1(\"x\".to_string()) { C1((|v: i32| v + 1)(a)) { L0 C1(if a > 3 { 1 } else { 2 }) { C1([1, 2]) { L0 ..s(2).into_iter().rev() } } } } } } }", "C1(7){L0() C1(\"q\"){C1(7){L0() C1(\"x\"){C1(8){L0() C1(1){C1([1, 2]){L0() S(1) S(0)}}}}}}}", p1509),
    ("C2(a, a + 2 * 3, n: m::X, id: a) { L0 C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { L0 ..s(2).into_iter().rev() } } } } } } }", "C2(7|13).n=5.id=7{L0() C2(\"q\"|7).n=true.id=\"q\"{C2(7|-2147483648).n=7.id=7{L0() C2(\"x\"|99).n=1..3.id=\"x\"{C2(8|true).n=Some(1).id=8{L0() C2(1|7).n=\"s\".id=1{C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{L0() S(1) S(0)}}}}}}}", p1510),
    ("C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 L1(m::f(1, 2)) } } } } } } } }", "C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() L1((1, 2))}}}}}}}}", p1511),
    ("C0(id: s(2).len()) { C0(id: if a > 3 { 1 } else { 2 }) { L0 C0(id: m::f(1, 2)) { C0(id: a) { L0 C0(id: r#\"q\"#) { C0(id: P { x: a }.x) { L0 C0(id: \"x\".to_string()) { C0(id: (|v: i32| v + 1)(a)) { L0 L1(if a > 3 { 1 } else { 2 }) } } } } } } } }", "C0().id=2{C0().id=1{L0() C0().id=(1, 2){C0().id=7{L0() C0().id=\"q\"{C0().id=7{L0() C0().id=\"x\"{C0().id=8{L0() L1(1)}}}}}}}}", p1512),
    ("C1(\"x\".to_string()) { C1((|v: i32| v + 1)(a)) { L0 C1(if a > 3 { 1 } else { 2 }) { C1([1, 2]) { L0 C1(a) { C1(1) { L0 C1(P { x: a }.x) { C1(i32::MAX) { L0 L1((|v: i32| v + 1)(a)) } } } } } } } }", "C1(\"x\"){C1(8){L0() C1(1){C1([1, 2]){L0() C1(7){C1(1){L0() C1(7){C1(2147483647){L0() L1(8)}}}}}}}}", p1513),
    ("C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L0 C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { L0 C2(1, -1, n: \"a: b\", id: 1) { C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { L0 L1(i32::MAX) } } } } } } } }", "C2(7|-2147483648).n=7.id=7{C2(2147483647|tick).n=[7, 7].id=2147483647{L0() C2(8|true).n=Some(1).id=8{C2(2|7).n=false.id=2{L0() C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{C2((1, 2)|7).n=\"7,2\".id=(1, 2){L0() C2(1|-1).n=\"a: b\".id=1{C2(\"q\"|7).n=true.id=\"q\"{L0() L1(2147483647)}}}}}}}}", p1514),
    ("C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } } } } }", "C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() S(1) S(0)}}}}}}}}", p1515),
    ("C0(id: 1) { C0(id: r#\"q\"#) { L0 C0(id: i32::MAX) { C0(id: \"x\".to_string()) { L0 C0(id: s(2).len()) { C0(id: if a > 3 { 1 } else { 2 }) { L0 C0(id: m::f(1, 2)) { C0(id: a) { L0 ..s(2).into_iter().rev() } } } } } } } }", "C0().id=1{C0().id=\"q\"{L0() C0().id=2147483647{C0().id=\"x\"{L0() C0().id=2{C0().id=1{L0() C0().id=(1, 2){C0().id=7{L0() S(1) S(0)}}}}}}}}", p1516),
    ("C1(a) { C1(1) { L0 C1(P { x: a }.x) { C1(i32::MAX) { L0 C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 C1([1, 2]) { C1(m::f(1, 2)) { L0 ..s(2).into_iter().rev() } } } } } } } }", "C1(7){C1(1){L0() C1(7){C1(2147483647){L0() C1(8){C1(2){L0() C1([1, 2]){C1((1, 2)){L0() S(1) S(0)}}}}}}}}", p1517),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) { L0 C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { L0 ..s(2).into_iter().rev() } } } } } } } }", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){C2(7|13).n=5.id=7{L0() C2(\"q\"|7).n=true.id=\"q\"{C2(7|-2147483648).n=7.id=7{L0() C2(\"x\"|99).n=1..3.id=\"x\"{C2(8|true).n=Some(1).id=8{L0() C2(1|7).n=\"s\".id=1{C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{L0() S(1) S(0)}}}}}}}}", p1518),
    ("C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 L1([1, 2]) } } } } } } } } }", "C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() L1([1, 2])}}}}}}}}}", p1519),
    ("C0(id: r#\"q\"#) { L0 C0(id: i32::MAX) { C0(id: \"x\".to_string()) { L0 C0(id: s(2).len()) { C0(id: if a > 3 { 1 } else { 2 }) { L0 C0(id: m::f(1, 2)) { C0(id: a) { L0 C0(id: r#\"q\"#) { C0(id: P { x: a }.x) { L0 L1(\"x\".to_string()) } } } } } } } } }", "C0().id=\"q\"{L0() C0().id=2147483647{C0().id=\"x\"{L0() C0().id=2{C0().id=1{L0() C0().id=(1, 2){C0().id=7{L0() C0().id=\"q\"{C0().id=7{L0() L1(\"x\")}}}}}}}}}", p1520),
    ("C1([1, 2]) { L0 C1(a) { C1(1) { L0 C1(P { x: a }.x) { C1(i32::MAX) { L0 C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 C1([1, 2]) { C1(m::f(1, 2)) { L0 L1(1) } } } } } } } } }", "C1([1, 2]){L0() C1(7){C1(1){L0() C1(7){C1(2147483647){L0() C1(8){C1(2){L0() C1([1, 2]){C1((1, 2)){L0() L1(1)}}}}}}}}}", p1521),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L0 C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { L0 C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) { L0 C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 L1(if a > 3 { 1 } else { 2 }) } } } } } } } } }", "C2(\"x\"|99).n=1..3.id=\"x\"{L0() C2(2|7).n=false.id=2{C2(1|7).n=\"s\".id=1{L0() C2((1, 2)|7).n=\"7,2\".id=(1, 2){C2(7|13).n=5.id=7{L0() C2(\"q\"|7).n=true.id=\"q\"{C2(7|-2147483648).n=7.id=7{L0() C2(\"x\"|99).n=1..3.id=\"x\"{C2(8|true).n=Some(1).id=8{L0() L1(1)}}}}}}}}}", p1522),
    ("C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } } } } } }", "C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() S(1) S(0)}}}}}}}}}", p1523),
    ("C0(id: m::f(1, 2)) { L0 C0(id: 1) { C0(id: r#\"q\"#) { L0 C0(id: i32::MAX) { C0(id: \"x\".to_string()) { L0 C0(id: s(2).len()) { C0(id: if a > 3 { 1 } else { 2 }) { L0 C0(id: m::f(1, 2)) { C0(id: a) { L0 ..s(2).into_iter().rev() } } } } } } } } }", "C0().id=(1, 2){L0() C0().id=1{C0().id=\"q\"{L0() C0().id=2147483647{C0().id=\"x\"{L0() C0().id=2{C0().id=1{L0() C0().id=(1, 2){C0().id=7{L0() S(1) S(0)}}}}}}}}}", p1524),
    ("C1(s(2).len()) { L0 C1([1, 2]) { C1(m::f(1, 2)) { L0 C1(1) { C1(r#\"q\"#) { L0 C1(i32::MAX) { C1(\"x\".to_string()) { L0 C1(s(2).len()) { C1(if a > 3 { 1 } else { 2 }) { L0 ..s(2).into_iter().rev() } } } } } } } } }", "C1(2){L0() C1([1, 2]){C1((1, 2)){L0() C1(1){C1(\"q\"){L0() C1(2147483647){C1(\"x\"){L0() C1(2){C1(1){L0() S(1) S(0)}}}}}}}}}", p1525),
    ("C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L0 C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { L0 C2(1, -1, n: \"a: b\", id: 1) { C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { L0 C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L0 ..s(2).into_iter().rev() } } } } } } } } }", "C2(2147483647|tick).n=[7, 7].id=2147483647{L0() C2(8|true).n=Some(1).id=8{C2(2|7).n=false.id=2{L0() C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{C2((1, 2)|7).n=\"7,2\".id=(1, 2){L0() C2(1|-1).n=\"a: b\".id=1{C2(\"q\"|7).n=true.id=\"q\"{L0() C2(2147483647|tick).n=[7, 7].id=2147483647{C2(\"x\"|99).n=1..3.id=\"x\"{L0() S(1) S(0)}}}}}}}}}", p1526),
    ("C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 L1(P { x: a }.x) } } } } } } } } } }", "C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() L1(7)}}}}}}}}}}", p1527),
    ("C0(id: \"x\".to_string()) { C0(id: (|v: i32| v + 1)(a)) { L0 C0(id: if a > 3 { 1 } else { 2 }) { C0(id: [1, 2]) { L0 C0(id: a) { C0(id: 1) { L0 C0(id: P { x: a }.x) { C0(id: i32::MAX) { L0 C0(id: (|v: i32| v + 1)(a)) { C0(id: s(2).len()) { L0 L1([1, 2]) } } } } } } } } } }", "C0().id=\"x\"{C0().id=8{L0() C0().id=1{C0().id=[1, 2]{L0() C0().id=7{C0().id=1{L0() C0().id=7{C0().id=2147483647{L0() C0().id=8{C0().id=2{L0() L1([1, 2])}}}}}}}}}}", p1528),
    ("C1(a) { C1(1) { L0 C1(P { x: a }.x) { C1(i32::MAX) { L0 C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 C1([1, 2]) { C1(m::f(1, 2)) { L0 C1(1) { C1(r#\"q\"#) { L0 L1(i32::MAX) } } } } } } } } } }", "C1(7){C1(1){L0() C1(7){C1(2147483647){L0() C1(8){C1(2){L0() C1([1, 2]){C1((1, 2)){L0() C1(1){C1(\"q\"){L0() L1(2147483647)}}}}}}}}}}", p1529),
    ("C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { L0 C2(1, -1, n: \"a: b\", id: 1) { C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { L0 C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L0 C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { L0 L1(m::f(1, 2)) } } } } } } } } } }", "C2(8|true).n=Some(1).id=8{C2(2|7).n=false.id=2{L0() C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{C2((1, 2)|7).n=\"7,2\".id=(1, 2){L0() C2(1|-1).n=\"a: b\".id=1{C2(\"q\"|7).n=true.id=\"q\"{L0() C2(2147483647|tick).n=[7, 7].id=2147483647{C2(\"x\"|99).n=1..3.id=\"x\"{L0() C2(2|7).n=false.id=2{C2(1|7).n=\"s\".id=1{L0() L1((1, 2))}}}}}}}}}}", p1530),
    ("C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } } } } } } }", "C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() S(1) S(0)}}}}}}}}}}", p1531),
    ("C0(id: [1, 2]) { C0(id: m::f(1, 2)) { L0 C0(id: 1) { C0(id: r#\"q\"#) { L0 C0(id: i32::MAX) { C0(id: \"x\".to_string()) { L0 C0(id: s(2).len()) { C0(id: if a > 3 { 1 } else { 2 }) { L0 C0(id: m::f(1, 2)) { C0(id: a) { L0 ..s(2).into_iter().rev() } } } } } } } } } }", "C0().id=[1, 2]{C0().id=(1, 2){L0() C0().id=1{C0().id=\"q\"{L0() C0().id=2147483647{C0().id=\"x\"{L0() C0().id=2{C0().id=1{L0() C0().id=(1, 2){C0().id=7{L0() S(1) S(0)}}}}}}}}}}", p1532),
    ("C1(\"x\".to_string()) { C1((|v: i32| v + 1)(a)) { L0 C1(if a > 3 { 1 } else { 2 }) { C1([1, 2]) { L0 C1(a) { C1(1) { L0 C1(P { x: a }.x) { C1(i32::MAX) { L0 C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 ..s(2).into_iter().rev() } } } } } } } } } }", "C1(\"x\"){C1(8){L0() C1(1){C1([1, 2]){L0() C1(7){C1(1){L0() C1(7){C1(2147483647){L0() C1(8){C1(2){L0() S(1) S(0)}}}}}}}}}}", p1533),
    ("C2(1, -1, n: \"a: b\", id: 1) { C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { L0 C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L0 C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { L0 C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) { L0 C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 ..s(2).into_iter().rev() } } } } } } } } } }", "C2(1|-1).n=\"a: b\".id=1{C2(\"q\"|7).n=true.id=\"q\"{L0() C2(2147483647|tick).n=[7, 7].id=2147483647{C2(\"x\"|99).n=1..3.id=\"x\"{L0() C2(2|7).n=false.id=2{C2(1|7).n=\"s\".id=1{L0() C2((1, 2)|7).n=\"7,2\".id=(1, 2){C2(7|13).n=5.id=7{L0() C2(\"q\"|7).n=true.id=\"q\"{C2(7|-2147483648).n=7.id=7{L0() S(1) S(0)}}}}}}}}}}", p1534),
    ("C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 L1(a) } } } } } } } } } } }", "C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() L1(7)}}}}}}}}}}}", p1535),
    ("C0(id: [1, 2]) { L0 C0(id: a) { C0(id: 1) { L0 C0(id: P { x: a }.x) { C0(id: i32::MAX) { L0 C0(id: (|v: i32| v + 1)(a)) { C0(id: s(2).len()) { L0 C0(id: [1, 2]) { C0(id: m::f(1, 2)) { L0 C0(id: 1) { C0(id: r#\"q\"#) { L0 L1(i32::MAX) } } } } } } } } } } }", "C0().id=[1, 2]{L0() C0().id=7{C0().id=1{L0() C0().id=7{C0().id=2147483647{L0() C0().id=8{C0().id=2{L0() C0().id=[1, 2]{C0().id=(1, 2){L0() C0().id=1{C0().id=\"q\"{L0() L1(2147483647)}}}}}}}}}}}", p1536),
    ("C1(r#\"q\"#) { L0 C1(i32::MAX) { C1(\"x\".to_string()) { L0 C1(s(2).len()) { C1(if a > 3 { 1 } else { 2 }) { L0 C1(m::f(1, 2)) { C1(a) { L0 C1(r#\"q\"#) { C1(P { x: a }.x) { L0 C1(\"x\".to_string()) { C1((|v: i32| v + 1)(a)) { L0 L1(if a > 3 { 1 } else { 2 }) } } } } } } } } } } }", "C1(\"q\"){L0() C1(2147483647){C1(\"x\"){L0() C1(2){C1(1){L0() C1((1, 2)){C1(7){L0() C1(\"q\"){C1(7){L0() C1(\"x\"){C1(8){L0() L1(1)}}}}}}}}}}}", p1537),
    ("C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { L0 C2(a, a + 2 * 3, n: m::X, id: a) { C2(1, -1, n: \"a: b\", id: 1) { L0 C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L0 C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { L0 L1(1) } } } } } } } } } } }", "C2(8|true).n=Some(1).id=8{L0() C2(1|7).n=\"s\".id=1{C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{L0() C2(7|13).n=5.id=7{C2(1|-1).n=\"a: b\".id=1{L0() C2(7|-2147483648).n=7.id=7{C2(2147483647|tick).n=[7, 7].id=2147483647{L0() C2(8|true).n=Some(1).id=8{C2(2|7).n=false.id=2{L0() C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{C2((1, 2)|7).n=\"7,2\".id=(1, 2){L0() L1(1)}}}}}}}}}}}", p1538),
    ("C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } } } } } } } }", "C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() S(1) S(0)}}}}}}}}}}}", p1539),
    ("C0(id: \"x\".to_string()) { L0 C0(id: s(2).len()) { C0(id: if a > 3 { 1 } else { 2 }) { L0 C0(id: m::f(1, 2)) { C0(id: a) { L0 C0(id: r#\"q\"#) { C0(id: P { x: a }.x) { L0 C0(id: \"x\".to_string()) { C0(id: (|v: i32| v + 1)(a)) { L0 C0(id: if a > 3 { 1 } else { 2 }) { C0(id: [1, 2]) { L0 ..s(2).into_iter().rev() } } } } } } } } } } }", "C0().id=\"x\"{L0() C0().id=2{C0().id=1{L0() C0().id=(1, 2){C0().id=7{L0() C0().id=\"q\"{C0().id=7{L0() C0().id=\"x\"{C0().id=8{L0() C0().id=1{C0().id=[1, 2]{L0() S(1) S(0)}}}}}}}}}}}", p1540),
    ("C1(m::f(1, 2)) { L0 C1(1) { C1(r#\"q\"#) { L0 C1(i32::MAX) { C1(\"x\".to_string()) { L0 C1(s(2).len()) { C1(if a > 3 { 1 } else { 2 }) { L0 C1(m::f(1, 2)) { C1(a) { L0 C1(r#\"q\"#) { C1(P { x: a }.x) { L0 ..s(2).into_iter().rev() } } } } } } } } } } }", "C1((1, 2)){L0() C1(1){C1(\"q\"){L0() C1(2147483647){C1(\"x\"){L0() C1(2){C1(1){L0() C1((1, 2)){C1(7){L0() C1(\"q\"){C1(7){L0() S(1) S(0)}}}}}}}}}}}", p1541),
    ("C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L0 C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { L0 C2(1, -1, n: \"a: b\", id: 1) { C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { L0 C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { L0 C2(s(2).len(), &a, n: !true, id: s(2).len()) { C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { L0 ..s(2).into_iter().rev() } } } } } } } } } } }", "C2(2147483647|tick).n=[7, 7].id=2147483647{L0() C2(8|true).n=Some(1).id=8{C2(2|7).n=false.id=2{L0() C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{C2((1, 2)|7).n=\"7,2\".id=(1, 2){L0() C2(1|-1).n=\"a: b\".id=1{C2(\"q\"|7).n=true.id=\"q\"{L0() C2(2147483647|tick).n=[7, 7].id=2147483647{C2(\"x\"|99).n=1..3.id=\"x\"{L0() C2(2|7).n=false.id=2{C2(1|7).n=\"s\".id=1{L0() S(1) S(0)}}}}}}}}}}}", p1542),
    ("C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 L1(P { x: a }.x) } } } } } } } } } } } }", "C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() L1(7)}}}}}}}}}}}}", p1543),
    ("C0(id: m::f(1, 2)) { C0(id: a) { L0 C0(id: r#\"q\"#) { C0(id: P { x: a }.x) { L0 C0(id: \"x\".to_string()) { C0(id: (|v: i32| v + 1)(a)) { L0 C0(id: if a > 3 { 1 } else { 2 }) { C0(id: [1, 2]) { L0 C0(id: a) { C0(id: 1) { L0 C0(id: P { x: a }.x) { C0(id: i32::MAX) { L0 L1((|v: i32| v + 1)(a)) } } } } } } } } } } } }", "C0().id=(1, 2){C0().id=7{L0() C0().id=\"q\"{C0().id=7{L0() C0().id=\"x\"{C0().id=8{L0() C0().id=1{C0().id=[1, 2]{L0() C0().id=7{C0().id=1{L0() C0().id=7{C0().id=2147483647{L0() L1(8)}}}}}}}}}}}}", p1544),
    ("C1(r#\"q\"#) { C1(P { x: a }.x) { L0 C1(\"x\".to_string()) { C1((|v: i32| v + 1)(a)) { L0 C1(if a > 3 { 1 } else { 2 }) { C1([1, 2]) { L0 C1(a) { C1(1) { L0 C1(P { x: a }.x) { C1(i32::MAX) { L0 C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 L1([1, 2]) } } } } } } } } } } } }", "C1(\"q\"){C1(7){L0() C1(\"x\"){C1(8){L0() C1(1){C1([1, 2]){L0() C1(7){C1(1){L0() C1(7){C1(2147483647){L0() C1(8){C1(2){L0() L1([1, 2])}}}}}}}}}}}}", p1545),
    ("C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { L0 C2(a, a + 2 * 3, n: m::X, id: a) { C2(1, -1, n: \"a: b\", id: 1) { L0 C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L0 C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { C2(s(2).len(), &a, n: !true, id: s(2).len()) { L0 C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { L0 L1(1) } } } } } } } } } } } }", "C2(\"x\"|99).n=1..3.id=\"x\"{C2(8|true).n=Some(1).id=8{L0() C2(1|7).n=\"s\".id=1{C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{L0() C2(7|13).n=5.id=7{C2(1|-1).n=\"a: b\".id=1{L0() C2(7|-2147483648).n=7.id=7{C2(2147483647|tick).n=[7, 7].id=2147483647{L0() C2(8|true).n=Some(1).id=8{C2(2|7).n=false.id=2{L0() C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{C2((1, 2)|7).n=\"7,2\".id=(1, 2){L0() L1(1)}}}}}}}}}}}}", p1546),
    ("C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 C0 { C0 { L0 ..s(2).into_iter().rev() } } } } } } } } } } } }", "C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() C0(){C0(){L0() S(1) S(0)}}}}}}}}}}}}", p1547),
    ("C0(id: r#\"q\"#) { C0(id: P { x: a }.x) { L0 C0(id: \"x\".to_string()) { C0(id: (|v: i32| v + 1)(a)) { L0 C0(id: if a > 3 { 1 } else { 2 }) { C0(id: [1, 2]) { L0 C0(id: a) { C0(id: 1) { L0 C0(id: P { x: a }.x) { C0(id: i32::MAX) { L0 C0(id: (|v: i32| v + 1)(a)) { C0(id: s(2).len()) { L0 ..s(2).into_iter().rev() } } } } } } } } } } } }", "C0().id=\"q\"{C0().id=7{L0() C0().id=\"x\"{C0().id=8{L0() C0().id=1{C0().id=[1, 2]{L0() C0().id=7{C0().id=1{L0() C0().id=7{C0().id=2147483647{L0() C0().id=8{C0().id=2{L0() S(1) S(0)}}}}}}}}}}}}", p1548),
    ("C1((|v: i32| v + 1)(a)) { C1(s(2).len()) { L0 C1([1, 2]) { C1(m::f(1, 2)) { L0 C1(1) { C1(r#\"q\"#) { L0 C1(i32::MAX) { C1(\"x\".to_string()) { L0 C1(s(2).len()) { C1(if a > 3 { 1 } else { 2 }) { L0 C1(m::f(1, 2)) { C1(a) { L0 ..s(2).into_iter().rev() } } } } } } } } } } } }", "C1(8){C1(2){L0() C1([1, 2]){C1((1, 2)){L0() C1(1){C1(\"q\"){L0() C1(2147483647){C1(\"x\"){L0() C1(2){C1(1){L0() C1((1, 2)){C1(7){L0() S(1) S(0)}}}}}}}}}}}}", p1549),
    ("C2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2), id: m::f(1, 2)) { C2(a, a + 2 * 3, n: m::X, id: a) { L0 C2(r#\"q\"#, *&a, n: a == 7 && a != 8, id: r#\"q\"#) { C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { L0 C2(\"x\".to_string(), b'c', n: 1..3, id: \"x\".to_string()) { C2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1), id: (|v: i32| v + 1)(a)) { L0 C2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" }, id: if a > 3 { 1 } else { 2 }) { C2([1, 2], (1, \"t\"), n: P { x: 1 }, id: [1, 2]) { L0 C2(a, a + 2 * 3, n: m::X, id: a) { C2(1, -1, n: \"a: b\", id: 1) { L0 C2(P { x: a }.x, <i32>::MIN, n: (a), id: P { x: a }.x) { C2(i32::MAX, tick(), n: vec![a, a], id: i32::MAX) { L0 ..s(2).into_iter().rev() } } } } } } } } } } } }", "C2((1, 2)|7).n=\"7,2\".id=(1, 2){C2(7|13).n=5.id=7{L0() C2(\"q\"|7).n=true.id=\"q\"{C2(7|-2147483648).n=7.id=7{L0() C2(\"x\"|99).n=1..3.id=\"x\"{C2(8|true).n=Some(1).id=8{L0() C2(1|7).n=\"s\".id=1{C2([1, 2]|(1, \"t\")).n=P { x: 1 }.id=[1, 2]{L0() C2(7|13).n=5.id=7{C2(1|-1).n=\"a: b\".id=1{L0() C2(7|-2147483648).n=7.id=7{C2(2147483647|tick).n=[7, 7].id=2147483647{L0() S(1) S(0)}}}}}}}}}}}}", p1550),
    ("..s(2) L0() L1(if a > 3 { 1 } else { 2 })", "S(0) S(1) L0() L1(1)", p1551),
    ("C0(id: \"x\".to_string()) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1((|v: i32| v + 1)(a)) }", "C0().id=\"x\"{L1(0).n=7 L1(1).n=7 L0() L1(8)}", p1552),
    ("..s(2) L0() L1(P { x: a }.x) L1(r#\"q\"#, id: *&a)", "S(0) S(1) L0() L1(7) L1(\"q\").id=7", p1553),
    ("C0(id: [1, 2]) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(a) L1(m::f(1, 2), id: a as u8) }", "C0().id=[1, 2]{L1(0).n=7 L1(1).n=7 L0() L1(7) L1((1, 2)).id=7}", p1554),
    ("L0 L0() L1((|v: i32| v + 1)(a)) ..s(2)", "L0() L0() L1(8) S(0) S(1)", p1555),
    ("C0(id: r#\"q\"#) { L0 L0() L1(P { x: a }.x) ..(0..2).map(|i| widget! { L1(i, n: a) }) }", "C0().id=\"q\"{L0() L0() L1(7) L1(0).n=7 L1(1).n=7}", p1556),
    ("..s(2) L0() L1(a) L1(m::f(1, 2), id: a as u8) L0(classes: [1, 2], id: (1, \"t\"))", "S(0) S(1) L0() L1(7) L1((1, 2)).id=7 L0().classes=[1, 2].id=(1, \"t\")", p1557),
    ("C0(id: i32::MAX) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(s(2).len()) L1((|v: i32| v + 1)(a), id: a < 9) L0(classes: \"x\".to_string(), id: b'c') }", "C0().id=2147483647{L1(0).n=7 L1(1).n=7 L0() L1(2) L1(8).id=true L0().classes=\"x\".id=99}", p1558),
    ("L0 L0() L1(1) ..s(2) L0(classes: a, id: a + 2 * 3)", "L0() L0() L1(1) S(0) S(1) L0().classes=7.id=13", p1559),
    ("C0(id: (|v: i32| v + 1)(a)) { L0 L0() L1(if a > 3 { 1 } else { 2 }) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: s(2).len(), id: &a) }", "C0().id=8{L0() L0() L1(1) L1(0).n=7 L1(1).n=7 L0().classes=2.id=7}", p1560),
    ("..s(2) L0() L1(i32::MAX) L1(P { x: a }.x, id: <i32>::MIN) L0(classes: r#\"q\"#, id: *&a) L2(1, -1, n: \"a: b\",)", "S(0) S(1) L0() L1(2147483647) L1(7).id=-2147483648 L0().classes=\"q\".id=7 L2(1|-1).n=\"a: b\"", p1561),
    ("C0(id: (|v: i32| v + 1)(a)) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(m::f(1, 2)) L1([1, 2], id: (1, \"t\")) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L2(s(2).len(), &a, n: !true,) }", "C0().id=8{L1(0).n=7 L1(1).n=7 L0() L1((1, 2)) L1([1, 2]).id=(1, \"t\") L0().classes=1.id=7 L2(2|7).n=false}", p1562),
    ("L0 L0() L1(P { x: a }.x) ..s(2) L0(classes: r#\"q\"#, id: *&a) L2(1, -1, n: \"a: b\",)", "L0() L0() L1(7) S(0) S(1) L0().classes=\"q\".id=7 L2(1|-1).n=\"a: b\"", p1563),
    ("C0(id: (|v: i32| v + 1)(a)) { L0 L0() L1([1, 2]) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L2(s(2).len(), &a, n: !true,) }", "C0().id=8{L0() L0() L1([1, 2]) L1(0).n=7 L1(1).n=7 L0().classes=1.id=7 L2(2|7).n=false}", p1564),
    ("..s(2) L0() L1(i32::MAX) L1(P { x: a }.x, id: <i32>::MIN) L0(classes: r#\"q\"#, id: *&a) L2(1, -1, n: \"a: b\",) F1(|v: i32| v + 1, n: a)", "S(0) S(1) L0() L1(2147483647) L1(7).id=-2147483648 L0().classes=\"q\".id=7 L2(1|-1).n=\"a: b\" F1(11).n=7", p1565),
    ("C0(id: i32::MAX) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) F1(|v: i32| v + 1, n: \"x\".to_string()) }", "C0().id=2147483647{L1(0).n=7 L1(1).n=7 L0() L1([1, 2]) L1(1).id=7 L0().classes=2.id=7 L2(8|true).n=Some(1) F1(11).n=\"x\"}", p1566),
    ("L0 L0() L1(1) ..s(2) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2),) F1(|v: i32| v + 1, n: [1, 2])", "L0() L0() L1(1) S(0) S(1) L0().classes=7.id=13 L2((1, 2)|7).n=\"7,2\" F1(11).n=[1, 2]", p1567),
    ("C0(id: r#\"q\"#) { L0 L0() L1((|v: i32| v + 1)(a)) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: \"x\".to_string(), id: b'c') L2(i32::MAX, tick(), n: vec![a, a],) F1(|v: i32| v + 1, n: P { x: a }.x) }", "C0().id=\"q\"{L0() L0() L1(8) L1(0).n=7 L1(1).n=7 L0().classes=\"x\".id=99 L2(2147483647|tick).n=[7, 7] F1(11).n=7}", p1568),
    ("L0 L0() L1(m::f(1, 2)) L1([1, 2], id: (1, \"t\")) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L2(s(2).len(), &a, n: !true,) ..s(2)", "L0() L0() L1((1, 2)) L1([1, 2]).id=(1, \"t\") L0().classes=1.id=7 L2(2|7).n=false S(0) S(1)", p1569),
    ("C0(id: a) { L0 L0() L1(i32::MAX) L1(P { x: a }.x, id: <i32>::MIN) L0(classes: r#\"q\"#, id: *&a) L2(1, -1, n: \"a: b\",) ..(0..2).map(|i| widget! { L1(i, n: a) }) }", "C0().id=7{L0() L0() L1(2147483647) L1(7).id=-2147483648 L0().classes=\"q\".id=7 L2(1|-1).n=\"a: b\" L1(0).n=7 L1(1).n=7}", p1570),
    ("..s(2) L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) F1(|v: i32| v + 1, n: \"x\".to_string()) L0", "S(0) S(1) L0() L1([1, 2]) L1(1).id=7 L0().classes=2.id=7 L2(8|true).n=Some(1) F1(11).n=\"x\" L0()", p1571),
    ("C0(id: s(2).len()) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(r#\"q\"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 }", "C0().id=2{L1(0).n=7 L1(1).n=7 L0() L1(\"q\") L1(1).id=-1 L0().classes=7.id=13 L2((1, 2)|7).n=\"7,2\" F1(11).n=[1, 2] L0()}", p1572),
    ("L0 L0() L1(i32::MAX) ..s(2) L0(classes: P { x: a }.x, id: <i32>::MIN) L2(r#\"q\"#, *&a, n: a == 7 && a != 8,) F1(|v: i32| v + 1, n: 1) L0", "L0() L0() L1(2147483647) S(0) S(1) L0().classes=7.id=-2147483648 L2(\"q\"|7).n=true F1(11).n=1 L0()", p1573),
    ("C0(id: P { x: a }.x) { L0 L0() L1(if a > 3 { 1 } else { 2 }) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) F1(|v: i32| v + 1, n: \"x\".to_string()) L0 }", "C0().id=7{L0() L0() L1(1) L1(0).n=7 L1(1).n=7 L0().classes=2.id=7 L2(8|true).n=Some(1) F1(11).n=\"x\" L0()}", p1574),
    ("L0 L0() L1(a) L1(m::f(1, 2), id: a as u8) L0(classes: [1, 2], id: (1, \"t\")) L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" },) ..s(2) L0", "L0() L0() L1(7) L1((1, 2)).id=7 L0().classes=[1, 2].id=(1, \"t\") L2(1|7).n=\"s\" S(0) S(1) L0()", p1575),
    ("C0(id: m::f(1, 2)) { L0 L0() L1(i32::MAX) L1(P { x: a }.x, id: <i32>::MIN) L0(classes: r#\"q\"#, id: *&a) L2(1, -1, n: \"a: b\",) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0 }", "C0().id=(1, 2){L0() L0() L1(2147483647) L1(7).id=-2147483648 L0().classes=\"q\".id=7 L2(1|-1).n=\"a: b\" L1(0).n=7 L1(1).n=7 L0()}", p1576),
    ("..s(2) L0() L1(if a > 3 { 1 } else { 2 }) L1(s(2).len(), id: &a) L0(classes: (|v: i32| v + 1)(a), id: a < 9) L2(\"x\".to_string(), b'c', n: 1..3,) F1(|v: i32| v + 1, n: i32::MAX) L0 L0()", "S(0) S(1) L0() L1(1) L1(2).id=7 L0().classes=8.id=true L2(\"x\"|99).n=1..3 F1(11).n=2147483647 L0() L0()", p1577),
    ("C0(id: i32::MAX) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(a) L1(m::f(1, 2), id: a as u8) L0(classes: [1, 2], id: (1, \"t\")) L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" },) F1(|v: i32| v + 1, n: s(2).len()) L0 L0() }", "C0().id=2147483647{L1(0).n=7 L1(1).n=7 L0() L1(7) L1((1, 2)).id=7 L0().classes=[1, 2].id=(1, \"t\") L2(1|7).n=\"s\" F1(11).n=2 L0() L0()}", p1578),
    ("L0 L0() L1(1) ..s(2) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 L0()", "L0() L0() L1(1) S(0) S(1) L0().classes=7.id=13 L2((1, 2)|7).n=\"7,2\" F1(11).n=[1, 2] L0() L0()", p1579),
    ("C0(id: [1, 2]) { L0 L0() L1(i32::MAX) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: P { x: a }.x, id: <i32>::MIN) L2(r#\"q\"#, *&a, n: a == 7 && a != 8,) F1(|v: i32| v + 1, n: 1) L0 L0() }", "C0().id=[1, 2]{L0() L0() L1(2147483647) L1(0).n=7 L1(1).n=7 L0().classes=7.id=-2147483648 L2(\"q\"|7).n=true F1(11).n=1 L0() L0()}", p1580),
    ("L0 L0() L1((|v: i32| v + 1)(a)) L1(\"x\".to_string(), id: b'c') L0(classes: i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),) ..s(2) L0 L0()", "L0() L0() L1(8) L1(\"x\").id=99 L0().classes=2147483647.id=tick L2(7|-2147483648).n=7 S(0) S(1) L0() L0()", p1581),
    ("C0(id: P { x: a }.x) { L0 L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0 L0() }", "C0().id=7{L0() L0() L1([1, 2]) L1(1).id=7 L0().classes=2.id=7 L2(8|true).n=Some(1) L1(0).n=7 L1(1).n=7 L0() L0()}", p1582),
    ("..s(2) L0() L1(1) L1(a, id: a + 2 * 3) L0(classes: m::f(1, 2), id: a as u8) L2([1, 2], (1, \"t\"), n: P { x: 1 },) F1(|v: i32| v + 1, n: if a > 3 { 1 } else { 2 }) L0 L0() L1(\"x\".to_string())", "S(0) S(1) L0() L1(1) L1(7).id=13 L0().classes=(1, 2).id=7 L2([1, 2]|(1, \"t\")).n=P { x: 1 } F1(11).n=1 L0() L0() L1(\"x\")", p1583),
    ("C0(id: (|v: i32| v + 1)(a)) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(P { x: a }.x) L1(r#\"q\"#, id: *&a) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) F1(|v: i32| v + 1, n: m::f(1, 2)) L0 L0() L1(s(2).len()) }", "C0().id=8{L1(0).n=7 L1(1).n=7 L0() L1(7) L1(\"q\").id=7 L0().classes=1.id=-1 L2(7|13).n=5 F1(11).n=(1, 2) L0() L0() L1(2)}", p1584),
    ("L0 L0() L1(P { x: a }.x) ..s(2) L0(classes: r#\"q\"#, id: *&a) L2(1, -1, n: \"a: b\",) F1(|v: i32| v + 1, n: a) L0 L0() L1(if a > 3 { 1 } else { 2 })", "L0() L0() L1(7) S(0) S(1) L0().classes=\"q\".id=7 L2(1|-1).n=\"a: b\" F1(11).n=7 L0() L0() L1(1)", p1585),
    ("C0(id: [1, 2]) { L0 L0() L1(\"x\".to_string()) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),) F1(|v: i32| v + 1, n: r#\"q\"#) L0 L0() L1(m::f(1, 2)) }", "C0().id=[1, 2]{L0() L0() L1(\"x\") L1(0).n=7 L1(1).n=7 L0().classes=2147483647.id=tick L2(7|-2147483648).n=7 F1(11).n=\"q\" L0() L0() L1((1, 2))}", p1586),
    ("L0 L0() L1((|v: i32| v + 1)(a)) L1(\"x\".to_string(), id: b'c') L0(classes: i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),) ..s(2) L0 L0() L1(a)", "L0() L0() L1(8) L1(\"x\").id=99 L0().classes=2147483647.id=tick L2(7|-2147483648).n=7 S(0) S(1) L0() L0() L1(7)", p1587),
    ("C0(id: 1) { L0 L0() L1(if a > 3 { 1 } else { 2 }) L1(s(2).len(), id: &a) L0(classes: (|v: i32| v + 1)(a), id: a < 9) L2(\"x\".to_string(), b'c', n: 1..3,) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0 L0() L1(r#\"q\"#) }", "C0().id=1{L0() L0() L1(1) L1(2).id=7 L0().classes=8.id=true L2(\"x\"|99).n=1..3 L1(0).n=7 L1(1).n=7 L0() L0() L1(\"q\")}", p1588),
    ("L0 L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) F1(|v: i32| v + 1, n: \"x\".to_string()) L0 L0() ..s(2)", "L0() L0() L1([1, 2]) L1(1).id=7 L0().classes=2.id=7 L2(8|true).n=Some(1) F1(11).n=\"x\" L0() L0() S(0) S(1)", p1589),
    ("C0(id: i32::MAX) { L0 L0() L1(a) L1(m::f(1, 2), id: a as u8) L0(classes: [1, 2], id: (1, \"t\")) L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" },) F1(|v: i32| v + 1, n: s(2).len()) L0 L0() ..(0..2).map(|i| widget! { L1(i, n: a) }) }", "C0().id=2147483647{L0() L0() L1(7) L1((1, 2)).id=7 L0().classes=[1, 2].id=(1, \"t\") L2(1|7).n=\"s\" F1(11).n=2 L0() L0() L1(0).n=7 L1(1).n=7}", p1590),
    ("..s(2) L0() L1(r#\"q\"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 L0() L1((|v: i32| v + 1)(a)) L1(\"x\".to_string(), id: b'c')", "S(0) S(1) L0() L1(\"q\") L1(1).id=-1 L0().classes=7.id=13 L2((1, 2)|7).n=\"7,2\" F1(11).n=[1, 2] L0() L0() L1(8) L1(\"x\").id=99", p1591),
    ("C0(id: \"x\".to_string()) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(P { x: a }.x) L1(r#\"q\"#, id: *&a) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) F1(|v: i32| v + 1, n: m::f(1, 2)) L0 L0() L1(s(2).len()) L1((|v: i32| v + 1)(a), id: a < 9) }", "C0().id=\"x\"{L1(0).n=7 L1(1).n=7 L0() L1(7) L1(\"q\").id=7 L0().classes=1.id=-1 L2(7|13).n=5 F1(11).n=(1, 2) L0() L0() L1(2) L1(8).id=true}", p1592),
    ("L0 L0() L1(r#\"q\"#) ..s(2) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) F1(|v: i32| v + 1, n: m::f(1, 2)) L0 L0() L1(s(2).len()) L1((|v: i32| v + 1)(a), id: a < 9)", "L0() L0() L1(\"q\") S(0) S(1) L0().classes=1.id=-1 L2(7|13).n=5 F1(11).n=(1, 2) L0() L0() L1(2) L1(8).id=true", p1593),
    ("C0(id: (|v: i32| v + 1)(a)) { L0 L0() L1(P { x: a }.x) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: r#\"q\"#, id: *&a) L2(1, -1, n: \"a: b\",) F1(|v: i32| v + 1, n: a) L0 L0() L1(if a > 3 { 1 } else { 2 }) L1(s(2).len(), id: &a) }", "C0().id=8{L0() L0() L1(7) L1(0).n=7 L1(1).n=7 L0().classes=\"q\".id=7 L2(1|-1).n=\"a: b\" F1(11).n=7 L0() L0() L1(1) L1(2).id=7}", p1594),
    ("L0 L0() L1(P { x: a }.x) L1(r#\"q\"#, id: *&a) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) ..s(2) L0 L0() L1(if a > 3 { 1 } else { 2 }) L1(s(2).len(), id: &a)", "L0() L0() L1(7) L1(\"q\").id=7 L0().classes=1.id=-1 L2(7|13).n=5 S(0) S(1) L0() L0() L1(1) L1(2).id=7", p1595),
    ("C0(id: s(2).len()) { L0 L0() L1(i32::MAX) L1(P { x: a }.x, id: <i32>::MIN) L0(classes: r#\"q\"#, id: *&a) L2(1, -1, n: \"a: b\",) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0 L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }", "C0().id=2{L0() L0() L1(2147483647) L1(7).id=-2147483648 L0().classes=\"q\".id=7 L2(1|-1).n=\"a: b\" L1(0).n=7 L1(1).n=7 L0() L0() L1([1, 2]) L1(1).id=7}", p1596),
    ("L0 L0() L1(i32::MAX) L1(P { x: a }.x, id: <i32>::MIN) L0(classes: r#\"q\"#, id: *&a) L2(1, -1, n: \"a: b\",) F1(|v: i32| v + 1, n: a) L0 L0() ..s(2) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b })", "L0() L0() L1(2147483647) L1(7).id=-2147483648 L0().classes=\"q\".id=7 L2(1|-1).n=\"a: b\" F1(11).n=7 L0() L0() S(0) S(1) L1(1).id=7", p1597),
    ("C0(id: if a > 3 { 1 } else { 2 }) { L0 L0() L1(\"x\".to_string()) L1(i32::MAX, id: tick()) L0(classes: P { x: a }.x, id: <i32>::MIN) L2(r#\"q\"#, *&a, n: a == 7 && a != 8,) F1(|v: i32| v + 1, n: 1) L0 L0() ..(0..2).map(|i| widget! { L1(i, n: a) }) L1([1, 2], id: (1, \"t\")) }", "C0().id=1{L0() L0() L1(\"x\") L1(2147483647).id=tick L0().classes=7.id=-2147483648 L2(\"q\"|7).n=true F1(11).n=1 L0() L0() L1(0).n=7 L1(1).n=7 L1([1, 2]).id=(1, \"t\")}", p1598),
    ("..s(2) L0() L1((|v: i32| v + 1)(a)) L1(\"x\".to_string(), id: b'c') L0(classes: i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),) F1(|v: i32| v + 1, n: r#\"q\"#) L0 L0() L1(m::f(1, 2)) L1([1, 2], id: (1, \"t\")) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b })", "S(0) S(1) L0() L1(8) L1(\"x\").id=99 L0().classes=2147483647.id=tick L2(7|-2147483648).n=7 F1(11).n=\"q\" L0() L0() L1((1, 2)) L1([1, 2]).id=(1, \"t\") L0().classes=1.id=7", p1599),
    ("C0(id: s(2).len()) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1((|v: i32| v + 1)(a)) L1(\"x\".to_string(), id: b'c') L0(classes: i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),) F1(|v: i32| v + 1, n: r#\"q\"#) L0 L0() L1(m::f(1, 2)) L1([1, 2], id: (1, \"t\")) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) }", "C0().id=2{L1(0).n=7 L1(1).n=7 L0() L1(8) L1(\"x\").id=99 L0().classes=2147483647.id=tick L2(7|-2147483648).n=7 F1(11).n=\"q\" L0() L0() L1((1, 2)) L1([1, 2]).id=(1, \"t\") L0().classes=1.id=7}", p1600),
    ("L0 L0() L1(i32::MAX) ..s(2) L0(classes: P { x: a }.x, id: <i32>::MIN) L2(r#\"q\"#, *&a, n: a == 7 && a != 8,) F1(|v: i32| v + 1, n: 1) L0 L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a)", "L0() L0() L1(2147483647) S(0) S(1) L0().classes=7.id=-2147483648 L2(\"q\"|7).n=true F1(11).n=1 L0() L0() L1([1, 2]) L1(1).id=7 L0().classes=2.id=7", p1601),
    ("C0(id: (|v: i32| v + 1)(a)) { L0 L0() L1(i32::MAX) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: P { x: a }.x, id: <i32>::MIN) L2(r#\"q\"#, *&a, n: a == 7 && a != 8,) F1(|v: i32| v + 1, n: 1) L0 L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) }", "C0().id=8{L0() L0() L1(2147483647) L1(0).n=7 L1(1).n=7 L0().classes=7.id=-2147483648 L2(\"q\"|7).n=true F1(11).n=1 L0() L0() L1([1, 2]) L1(1).id=7 L0().classes=2.id=7}", p1602),
    ("L0 L0() L1(P { x: a }.x) L1(r#\"q\"#, id: *&a) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) ..s(2) L0 L0() L1(if a > 3 { 1 } else { 2 }) L1(s(2).len(), id: &a) L0(classes: (|v: i32| v + 1)(a), id: a < 9)", "L0() L0() L1(7) L1(\"q\").id=7 L0().classes=1.id=-1 L2(7|13).n=5 S(0) S(1) L0() L0() L1(1) L1(2).id=7 L0().classes=8.id=true", p1603),
    ("C0(id: \"x\".to_string()) { L0 L0() L1(P { x: a }.x) L1(r#\"q\"#, id: *&a) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0 L0() L1(if a > 3 { 1 } else { 2 }) L1(s(2).len(), id: &a) L0(classes: (|v: i32| v + 1)(a), id: a < 9) }", "C0().id=\"x\"{L0() L0() L1(7) L1(\"q\").id=7 L0().classes=1.id=-1 L2(7|13).n=5 L1(0).n=7 L1(1).n=7 L0() L0() L1(1) L1(2).id=7 L0().classes=8.id=true}", p1604),
    ("L0 L0() L1(r#\"q\"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 L0() ..s(2) L1((|v: i32| v + 1)(a), id: a < 9) L0(classes: \"x\".to_string(), id: b'c')", "L0() L0() L1(\"q\") L1(1).id=-1 L0().classes=7.id=13 L2((1, 2)|7).n=\"7,2\" F1(11).n=[1, 2] L0() L0() S(0) S(1) L1(8).id=true L0().classes=\"x\".id=99", p1605),
    ("C0(id: i32::MAX) { L0 L0() L1(r#\"q\"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 L0() ..(0..2).map(|i| widget! { L1(i, n: a) }) L1((|v: i32| v + 1)(a), id: a < 9) L0(classes: \"x\".to_string(), id: b'c') }", "C0().id=2147483647{L0() L0() L1(\"q\") L1(1).id=-1 L0().classes=7.id=13 L2((1, 2)|7).n=\"7,2\" F1(11).n=[1, 2] L0() L0() L1(0).n=7 L1(1).n=7 L1(8).id=true L0().classes=\"x\".id=99}", p1606),
    ("..s(2) L0() L1(r#\"q\"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 L0() L1((|v: i32| v + 1)(a)) L1(\"x\".to_string(), id: b'c') L0(classes: i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),)", "S(0) S(1) L0() L1(\"q\") L1(1).id=-1 L0().classes=7.id=13 L2((1, 2)|7).n=\"7,2\" F1(11).n=[1, 2] L0() L0() L1(8) L1(\"x\").id=99 L0().classes=2147483647.id=tick L2(7|-2147483648).n=7", p1607),
    ("C0(id: 1) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(1) L1(a, id: a + 2 * 3) L0(classes: m::f(1, 2), id: a as u8) L2([1, 2], (1, \"t\"), n: P { x: 1 },) F1(|v: i32| v + 1, n: if a > 3 { 1 } else { 2 }) L0 L0() L1(\"x\".to_string()) L1(i32::MAX, id: tick()) L0(classes: P { x: a }.x, id: <i32>::MIN) L2(r#\"q\"#, *&a, n: a == 7 && a != 8,) }", "C0().id=1{L1(0).n=7 L1(1).n=7 L0() L1(1) L1(7).id=13 L0().classes=(1, 2).id=7 L2([1, 2]|(1, \"t\")).n=P { x: 1 } F1(11).n=1 L0() L0() L1(\"x\") L1(2147483647).id=tick L0().classes=7.id=-2147483648 L2(\"q\"|7).n=true}", p1608),
    ("L0 L0() L1([1, 2]) ..s(2) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L2(s(2).len(), &a, n: !true,) F1(|v: i32| v + 1, n: (|v: i32| v + 1)(a)) L0 L0() L1(P { x: a }.x) L1(r#\"q\"#, id: *&a) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,)", "L0() L0() L1([1, 2]) S(0) S(1) L0().classes=1.id=7 L2(2|7).n=false F1(11).n=8 L0() L0() L1(7) L1(\"q\").id=7 L0().classes=1.id=-1 L2(7|13).n=5", p1609),
    ("C0(id: [1, 2]) { L0 L0() L1(if a > 3 { 1 } else { 2 }) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) F1(|v: i32| v + 1, n: \"x\".to_string()) L0 L0() L1(r#\"q\"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2),) }", "C0().id=[1, 2]{L0() L0() L1(1) L1(0).n=7 L1(1).n=7 L0().classes=2.id=7 L2(8|true).n=Some(1) F1(11).n=\"x\" L0() L0() L1(\"q\") L1(1).id=-1 L0().classes=7.id=13 L2((1, 2)|7).n=\"7,2\"}", p1610),
    ("L0 L0() L1((|v: i32| v + 1)(a)) L1(\"x\".to_string(), id: b'c') L0(classes: i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),) ..s(2) L0 L0() L1(a) L1(m::f(1, 2), id: a as u8) L0(classes: [1, 2], id: (1, \"t\")) L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" },)", "L0() L0() L1(8) L1(\"x\").id=99 L0().classes=2147483647.id=tick L2(7|-2147483648).n=7 S(0) S(1) L0() L0() L1(7) L1((1, 2)).id=7 L0().classes=[1, 2].id=(1, \"t\") L2(1|7).n=\"s\"", p1611),
    ("C0(id: (|v: i32| v + 1)(a)) { L0 L0() L1(\"x\".to_string()) L1(i32::MAX, id: tick()) L0(classes: P { x: a }.x, id: <i32>::MIN) L2(r#\"q\"#, *&a, n: a == 7 && a != 8,) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0 L0() L1(m::f(1, 2)) L1([1, 2], id: (1, \"t\")) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L2(s(2).len(), &a, n: !true,) }", "C0().id=8{L0() L0() L1(\"x\") L1(2147483647).id=tick L0().classes=7.id=-2147483648 L2(\"q\"|7).n=true L1(0).n=7 L1(1).n=7 L0() L0() L1((1, 2)) L1([1, 2]).id=(1, \"t\") L0().classes=1.id=7 L2(2|7).n=false}", p1612),
    ("L0 L0() L1(P { x: a }.x) L1(r#\"q\"#, id: *&a) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) F1(|v: i32| v + 1, n: m::f(1, 2)) L0 L0() ..s(2) L1(s(2).len(), id: &a) L0(classes: (|v: i32| v + 1)(a), id: a < 9) L2(\"x\".to_string(), b'c', n: 1..3,)", "L0() L0() L1(7) L1(\"q\").id=7 L0().classes=1.id=-1 L2(7|13).n=5 F1(11).n=(1, 2) L0() L0() S(0) S(1) L1(2).id=7 L0().classes=8.id=true L2(\"x\"|99).n=1..3", p1613),
    ("C0(id: P { x: a }.x) { L0 L0() L1(r#\"q\"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 L0() ..(0..2).map(|i| widget! { L1(i, n: a) }) L1((|v: i32| v + 1)(a), id: a < 9) L0(classes: \"x\".to_string(), id: b'c') L2(i32::MAX, tick(), n: vec![a, a],) }", "C0().id=7{L0() L0() L1(\"q\") L1(1).id=-1 L0().classes=7.id=13 L2((1, 2)|7).n=\"7,2\" F1(11).n=[1, 2] L0() L0() L1(0).n=7 L1(1).n=7 L1(8).id=true L0().classes=\"x\".id=99 L2(2147483647|tick).n=[7, 7]}", p1614),
    ("L0 L0() L1(a) L1(m::f(1, 2), id: a as u8) L0(classes: [1, 2], id: (1, \"t\")) L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" },) F1(|v: i32| v + 1, n: s(2).len()) L0 L0() L1(i32::MAX) L1(P { x: a }.x, id: <i32>::MIN) L0(classes: r#\"q\"#, id: *&a) ..s(2)", "L0() L0() L1(7) L1((1, 2)).id=7 L0().classes=[1, 2].id=(1, \"t\") L2(1|7).n=\"s\" F1(11).n=2 L0() L0() L1(2147483647) L1(7).id=-2147483648 L0().classes=\"q\".id=7 S(0) S(1)", p1615),
    ("C0(id: a) { L0 L0() L1(m::f(1, 2)) L1([1, 2], id: (1, \"t\")) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L2(s(2).len(), &a, n: !true,) F1(|v: i32| v + 1, n: (|v: i32| v + 1)(a)) L0 L0() L1(P { x: a }.x) L1(r#\"q\"#, id: *&a) L0(classes: 1, id: -1) ..(0..2).map(|i| widget! { L1(i, n: a) }) }", "C0().id=7{L0() L0() L1((1, 2)) L1([1, 2]).id=(1, \"t\") L0().classes=1.id=7 L2(2|7).n=false F1(11).n=8 L0() L0() L1(7) L1(\"q\").id=7 L0().classes=1.id=-1 L1(0).n=7 L1(1).n=7}", p1616),
    ("..s(2) L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) F1(|v: i32| v + 1, n: \"x\".to_string()) L0 L0() L1(r#\"q\"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2),) F1(|v: i32| v + 1, n: [1, 2])", "S(0) S(1) L0() L1([1, 2]) L1(1).id=7 L0().classes=2.id=7 L2(8|true).n=Some(1) F1(11).n=\"x\" L0() L0() L1(\"q\") L1(1).id=-1 L0().classes=7.id=13 L2((1, 2)|7).n=\"7,2\" F1(11).n=[1, 2]", p1617),
    ("C0(id: (|v: i32| v + 1)(a)) { ..(0..2).map(|i| widget! { L1(i, n: a) }) L0() L1(s(2).len()) L1((|v: i32| v + 1)(a), id: a < 9) L0(classes: \"x\".to_string(), id: b'c') L2(i32::MAX, tick(), n: vec![a, a],) F1(|v: i32| v + 1, n: P { x: a }.x) L0 L0() L1(a) L1(m::f(1, 2), id: a as u8) L0(classes: [1, 2], id: (1, \"t\")) L2(if a > 3 { 1 } else { 2 }, { let b = a; b }, n: match a { 7 => \"s\", _ => \"o\" },) F1(|v: i32| v + 1, n: s(2).len()) }", "C0().id=8{L1(0).n=7 L1(1).n=7 L0() L1(2) L1(8).id=true L0().classes=\"x\".id=99 L2(2147483647|tick).n=[7, 7] F1(11).n=7 L0() L0() L1(7) L1((1, 2)).id=7 L0().classes=[1, 2].id=(1, \"t\") L2(1|7).n=\"s\" F1(11).n=2}", p1618),
    ("L0 L0() L1(P { x: a }.x) ..s(2) L0(classes: r#\"q\"#, id: *&a) L2(1, -1, n: \"a: b\",) F1(|v: i32| v + 1, n: a) L0 L0() L1(if a > 3 { 1 } else { 2 }) L1(s(2).len(), id: &a) L0(classes: (|v: i32| v + 1)(a), id: a < 9) L2(\"x\".to_string(), b'c', n: 1..3,) F1(|v: i32| v + 1, n: i32::MAX)", "L0() L0() L1(7) S(0) S(1) L0().classes=\"q\".id=7 L2(1|-1).n=\"a: b\" F1(11).n=7 L0() L0() L1(1) L1(2).id=7 L0().classes=8.id=true L2(\"x\"|99).n=1..3 F1(11).n=2147483647", p1619),
    ("C0(id: 1) { L0 L0() L1(1) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 L0() L1((|v: i32| v + 1)(a)) L1(\"x\".to_string(), id: b'c') L0(classes: i32::MAX, id: tick()) L2(P { x: a }.x, <i32>::MIN, n: (a),) F1(|v: i32| v + 1, n: r#\"q\"#) }", "C0().id=1{L0() L0() L1(1) L1(0).n=7 L1(1).n=7 L0().classes=7.id=13 L2((1, 2)|7).n=\"7,2\" F1(11).n=[1, 2] L0() L0() L1(8) L1(\"x\").id=99 L0().classes=2147483647.id=tick L2(7|-2147483648).n=7 F1(11).n=\"q\"}", p1620),
    ("L0 L0() L1([1, 2]) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) ..s(2) L0 L0() L1(P { x: a }.x) L1(r#\"q\"#, id: *&a) L0(classes: 1, id: -1) L2(a, a + 2 * 3, n: m::X,) F1(|v: i32| v + 1, n: m::f(1, 2))", "L0() L0() L1([1, 2]) L1(1).id=7 L0().classes=2.id=7 L2(8|true).n=Some(1) S(0) S(1) L0() L0() L1(7) L1(\"q\").id=7 L0().classes=1.id=-1 L2(7|13).n=5 F1(11).n=(1, 2)", p1621),
    ("C0(id: s(2).len()) { L0 L0() L1(s(2).len()) L1((|v: i32| v + 1)(a), id: a < 9) L0(classes: \"x\".to_string(), id: b'c') L2(i32::MAX, tick(), n: vec![a, a],) ..(0..2).map(|i| widget! { L1(i, n: a) }) L0 L0() L1(1) L1(a, id: a + 2 * 3) L0(classes: m::f(1, 2), id: a as u8) L2([1, 2], (1, \"t\"), n: P { x: 1 },) F1(|v: i32| v + 1, n: if a > 3 { 1 } else { 2 }) }", "C0().id=2{L0() L0() L1(2) L1(8).id=true L0().classes=\"x\".id=99 L2(2147483647|tick).n=[7, 7] L1(0).n=7 L1(1).n=7 L0() L0() L1(1) L1(7).id=13 L0().classes=(1, 2).id=7 L2([1, 2]|(1, \"t\")).n=P { x: 1 } F1(11).n=1}", p1622),
    ("L0 L0() L1(i32::MAX) L1(P { x: a }.x, id: <i32>::MIN) L0(classes: r#\"q\"#, id: *&a) L2(1, -1, n: \"a: b\",) F1(|v: i32| v + 1, n: a) L0 L0() ..s(2) L1(if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L0(classes: s(2).len(), id: &a) L2((|v: i32| v + 1)(a), a < 9, n: Some::<i32>(1),) F1(|v: i32| v + 1, n: \"x\".to_string())", "L0() L0() L1(2147483647) L1(7).id=-2147483648 L0().classes=\"q\".id=7 L2(1|-1).n=\"a: b\" F1(11).n=7 L0() L0() S(0) S(1) L1(1).id=7 L0().classes=2.id=7 L2(8|true).n=Some(1) F1(11).n=\"x\"", p1623),
    ("C0(id: r#\"q\"#) { L0 L0() L1(r#\"q\"#) L1(1, id: -1) L0(classes: a, id: a + 2 * 3) L2(m::f(1, 2), a as u8, n: format!(\"{a},{}\", 2),) F1(|v: i32| v + 1, n: [1, 2]) L0 L0() ..(0..2).map(|i| widget! { L1(i, n: a) }) L1((|v: i32| v + 1)(a), id: a < 9) L0(classes: \"x\".to_string(), id: b'c') L2(i32::MAX, tick(), n: vec![a, a],) F1(|v: i32| v + 1, n: P { x: a }.x) }", "C0().id=\"q\"{L0() L0() L1(\"q\") L1(1).id=-1 L0().classes=7.id=13 L2((1, 2)|7).n=\"7,2\" F1(11).n=[1, 2] L0() L0() L1(0).n=7 L1(1).n=7 L1(8).id=true L0().classes=\"x\".id=99 L2(2147483647|tick).n=[7, 7] F1(11).n=7}", p1624),
    ("L0 L0() L1(m::f(1, 2)) L1([1, 2], id: (1, \"t\")) L0(classes: if a > 3 { 1 } else { 2 }, id: { let b = a; b }) L2(s(2).len(), &a, n: !true,) F1(|v: i32| v + 1, n: (|v: i32| v + 1)(a)) L0 L0() L1(P { x: a }.x) L1(r#\"q\"#, id: *&a) L0(classes: 1, id: -1) ..s(2) F1(|v: i32| v + 1, n: a)", "L0() L0() L1((1, 2)) L1([1, 2]).id=(1, \"t\") L0().classes=1.id=7 L2(2|7).n=false F1(11).n=8 L0() L0() L1(7) L1(\"q\").id=7 L0().classes=1.id=-1 S(0) S(1) F1(11).n=7", p1625),
    ("C0(id: if a > 3 { 1 } else { 2 }) { L0 L0() L1(if a > 3 { 1 } else { 2 }) L1(s(2).len(), id: &a) L0(classes: (|v: i32| v + 1)(a), id: a < 9) L2(\"x\".to_string(), b'c', n: 1..3,) F1(|v: i32| v + 1, n: i32::MAX) L0 L0() L1(1) L1(a, id: a + 2 * 3) L0(classes: m::f(1, 2), id: a as u8) ..(0..2).map(|i| widget! { L1(i, n: a) }) F1(|v: i32| v + 1, n: [1, 2]) }", "C0().id=1{L0() L0() L1(1) L1(2).id=7 L0().classes=8.id=true L2(\"x\"|99).n=1..3 F1(11).n=2147483647 L0() L0() L1(1) L1(7).id=13 L0().classes=(1, 2).id=7 L1(0).n=7 L1(1).n=7 F1(11).n=[1, 2]}", p1626),
];
