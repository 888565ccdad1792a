//! The bounds of every check: which families, with which input bounds, in which tier.

use crate::engine::Plan;
use crate::fam::Fam;
use crate::gram::Space;
use crate::props::Cfg;

const fn sp(nts: usize, ts: usize, alts: usize, rhs: usize, size: usize, entry: usize) -> Fam {
    Fam::Space(Space { nts, ts, alts, rhs, size, entry })
}

/// All grammars up to 5 symbols in two shapes.
fn small() -> Vec<Fam> {
    vec![sp(3, 2, 4, 3, 5, 1), sp(2, 2, 3, 3, 4, 2), sp(2, 1, 2, 2, 3, 3)]
}

/// All grammars up to 6 symbols.
fn medium() -> Vec<Fam> {
    vec![sp(3, 3, 4, 4, 6, 1), sp(3, 2, 3, 3, 5, 2), sp(2, 2, 3, 3, 4, 3)]
}

pub fn plans(id: &str, tier: &str) -> Vec<Plan> {
    let thorough = tier == "thorough";
    let mut out = Vec::new();
    let all = [0, 1, 2, 3];
    // cheap: table-level properties; mid: driven on inputs; dear: many runs per grammar
    let class = match id {
        "C02" | "C06" | "C08" | "C11" => 0,
        "C01" | "C03" | "C04" | "C05" | "C10" => 1,
        "C14" => 3,
        _ => 2,
    };
    if id == "C23" || id == "C24" || id == "C26" {
        let mut add = |fams: Vec<Fam>, styles: &[u8], nodes: usize, len: usize, long: usize, deep: usize| {
            for fam in fams {
                out.push(Plan { fam, styles: styles.to_vec(), cfg: Cfg { nodes, len, long, orders: 400, deep } });
            }
        };
        match (id, thorough) {
            // nodes: pairs of items closed per grammar
            ("C23", false) => {
                add(vec![Fam::Textbook, Fam::Param(8)], &all, 2000, 0, 0, 0);
                add(vec![Fam::Distant(16), Fam::Wide(7)], &[0, 3], 400, 0, 0, 0);
                add(vec![Fam::Slots(3)], &[1], 60, 0, 0, 0);
                add(small(), &[0], 2000, 0, 0, 0);
                add(medium(), &[3], 0, 0, 0, 0);
                add(vec![Fam::Textbook], &[4], 200, 0, 0, 0);
                add(vec![Fam::Vast(&[65])], &[0], 20, 0, 0, 0);
                add(vec![Fam::Edits(1, 24)], &[2], 30, 0, 0, 0);
            }
            ("C23", true) => {
                add(vec![Fam::Textbook, Fam::Param(12), Fam::Distant(55), Fam::Wide(14)], &all, 20000, 0, 0, 0);
                add(small(), &all, 20000, 0, 0, 0);
                add(vec![Fam::Slots(4)], &[1], 400, 0, 0, 0);
                add(medium(), &[0, 3], 2000, 0, 0, 0);
                add(vec![Fam::Edits(1, 60)], &[0, 2], 1000, 0, 0, 0);
                add(vec![sp(3, 3, 4, 4, 7, 1)], &[0], 20, 0, 0, 0);
                add(vec![Fam::Edits(2, 8)], &[0], 60, 0, 0, 0);
            }
            // nodes: configurations continued per parser; deep: operations in a row
            ("C26", false) => {
                add(vec![Fam::Textbook, Fam::Param(4)], &[0, 3], 1 << 40, 2, 0, 2);
                add(vec![Fam::Textbook], &[4], 2000, 2, 0, 1);
                add(small(), &[0], 1 << 40, 2, 0, 2);
                add(vec![sp(2, 2, 2, 2, 3, 1)], &[2], 1 << 40, 2, 0, 3);
                add(vec![sp(1, 1, 2, 2, 2, 1)], &[1], 1 << 40, 2, 0, 4);
            }
            ("C26", true) => {
                add(vec![Fam::Textbook, Fam::Param(10)], &all, 1 << 40, 3, 0, 2);
                add(small(), &all, 1 << 40, 3, 0, 2);
                add(vec![Fam::Textbook], &[0], 20000, 2, 0, 3);
                add(vec![sp(2, 2, 3, 3, 4, 1)], &[0], 1 << 40, 2, 0, 3);
                add(vec![sp(2, 2, 2, 2, 3, 1)], &[1], 1 << 40, 2, 0, 4);
                add(vec![sp(1, 1, 2, 2, 2, 1)], &[1], 1 << 40, 2, 0, 5);
                add(medium(), &[0], 1 << 40, 2, 0, 2);
            }
            (_, false) => {
                add(vec![Fam::Textbook, Fam::Param(6)], &[0], 20, 7, 0, 1);
                add(vec![Fam::Textbook, Fam::Param(8)], &all, 60, 7, 12, 0);
                add(vec![Fam::Distant(16), Fam::Wide(6)], &[1], 40, 7, 12, 0);
                add(vec![Fam::Vast(&[257])], &[0], 20, 7, 0, 0);
                add(vec![Fam::Slots(3)], &[2], 40, 6, 0, 0);
                add(small(), &[0, 3], 60, 6, 0, 0);
                add(vec![Fam::Edits(1, 13)], &[2], 30, 6, 0, 0);
            }
            _ => {
                add(vec![Fam::Textbook, Fam::Param(12)], &all, 1000, 9, 24, 1);
                add(vec![Fam::Distant(40), Fam::Wide(10)], &[1], 100, 8, 20, 0);
                add(vec![Fam::Slots(4)], &[2], 60, 6, 0, 0);
                add(small(), &all, 300, 8, 12, 0);
                add(medium(), &[0], 60, 6, 0, 0);
                add(vec![Fam::Edits(1, 60)], &[2], 60, 7, 12, 0);
            }
        }
        return out;
    }
    // long inputs
    if class > 0 && class < 3 && id != "C12" {
        let deep = if id == "C05" || id == "C09" { 65 } else { 257 };
        let cfg = |deep| Cfg { nodes: 30, len: 3, long: 0, orders: 0, deep };
        out.push(Plan { fam: Fam::Textbook, styles: vec![3], cfg: cfg(if thorough { deep * 2 } else { deep }) });
        if id != "C03" {
            // around 2^16 symbols on the stack
            out.push(Plan { fam: Fam::Textbook, styles: vec![1], cfg: cfg(if thorough { 300_000 } else { 70_000 }) });
        }
        // a sentence for every production, the longest productions of some hundred symbols
        out.push(Plan { fam: Fam::Vast(if thorough { &[12, 13, 16, 17, 32, 33, 65, 128, 257] } else { &[13, 17, 33, 257] }), styles: vec![3], cfg: cfg(1) });
        out.push(Plan { fam: small().remove(0), styles: vec![0], cfg: cfg(if thorough { 65 } else { 20 }) });
    }
    let mut add = |fams: Vec<Fam>, styles: &[u8], nodes: usize, len: usize, long: usize, orders: usize| {
        for fam in fams {
            out.push(Plan { fam, styles: styles.to_vec(), cfg: Cfg { nodes, len, long, orders, deep: 0 } });
        }
    };
    if class == 3 {
        add(vec![Fam::Textbook], &[0], 0, if thorough { 5 } else { 4 }, 0, 0);
        return out;
    }
    // symbols that print alike
    add(vec![Fam::Textbook], &[4], 40, 6, 8, 12);
    add(small(), &[4], 20, 5, 0, 12);
    let long = 24;
    // distances and widths: cheap for table-level properties, costly where many runs are made
    let (far, wide) = match (id, thorough) {
        ("C12", false) => (6, 5),
        ("C12", true) => (12, 8),
        ("C05" | "C13", false) => (26, 8),
        (_, false) => (40, 9),
        (_, true) => (55, 14),
    };
    // sizes in the hundreds
    if id != "C12" {
        let v = Fam::Vast(if thorough { &[64, 128, 255, 256, 257] } else { &[64, 257] });
        add(vec![v], &[if class == 0 { 0 } else { 3 }], if class == 2 { 60 } else { 1100 }, if class == 2 { 280 } else { 560 }, 0, 0);
    }
    let few = if id == "C12" { 12 } else { 400 };
    add(vec![Fam::Distant(far)], if class == 0 { &[0, 3] } else { &[1] }, 60, 7, 20, few);
    add(vec![Fam::Wide(wide)], if class == 0 { &all } else { &[0, 3] }, 80, 7, 12, few);
    if id != "C12" {
        let n = if thorough || class == 0 { 4 } else { 3 };
        add(vec![Fam::Slots(n)], if thorough { &[0, 3] } else { &[1] }, 60, 6, 0, 0);
    } else if thorough {
        add(vec![Fam::Slots(3)], &[0], 20, 5, 0, 12);
    }
    if thorough {
        add(vec![Fam::Textbook, Fam::Param(12)], &all, if class == 2 { 1500 } else { 6000 }, 10, 40, 720);
        add(small(), &all, 300, 10, 12, 400);
        add(medium(), if class == 2 { &[0] } else { &all }, 150, 8, 0, 200);
        add(vec![Fam::Edits(1, 60)], if class == 2 { &[0] } else { &all }, 200, 8, if class == 2 { 0 } else { 12 }, 60);
        add(vec![sp(3, 3, 4, 4, 7, 1)], &[0], if class == 0 { 0 } else { 80 }, 7, 0, 40);
        add(vec![Fam::Edits(2, 8)], &[0], 80, 8, 0, 20);
        add(vec![Fam::Edits(2, 13)], &[0], 60, 8, 0, 20);
        add(vec![sp(4, 3, 4, 4, 8, 1)], &[0], if class == 0 { 0 } else { 60 }, 7, 0, 20);
    } else {
        match class {
            0 => {
                add(vec![Fam::Textbook, Fam::Param(8)], &all, 200, 8, long, 400);
                add(small(), &all, 100, 6, 0, 0);
                add(medium(), &[0], 100, 5, 0, 0);
                add(vec![Fam::Edits(1, 60)], &[0], 0, 0, 0, 0);
                if id != "C06" {
                    add(vec![if id == "C08" { sp(3, 3, 4, 4, 7, 1) } else { sp(2, 2, 4, 4, 7, 1) }], &[0], 0, 0, 0, 0);
                    add(vec![Fam::Edits(2, 8)], &[0], 0, 0, 0, 0);
                }
            }
            1 => {
                let less = id == "C10";
                add(vec![Fam::Textbook, Fam::Param(8)], &all, if less { 300 } else { 800 }, 8, long, 400);
                add(small(), &[1, 3], 120, 8, 8, 0);
                add(medium(), &[0], if less { 40 } else { 100 }, 7, 0, 0);
                add(vec![Fam::Edits(1, if less { 15 } else { 24 })], &[2], if less { 60 } else { 120 }, 7, 0, 0);
            }
            _ => {
                add(vec![Fam::Textbook], &all, if id == "C13" { 80 } else { 150 }, 8, if id == "C13" { 16 } else { long }, 60);
                add(vec![Fam::Param(8)], &[0, 3], 80, 8, long, 30);
                add(small(), &[0, 1], 60, 6, 0, 60);
                add(vec![Fam::Edits(1, 13)], &[2], 60, 7, 0, 30);
                if id != "C09" && id != "C12" {
                    add(medium(), &[0], 30, 6, 0, 0);
                }
            }
        }
    }
    out
}
