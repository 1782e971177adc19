//! Einsum equations are parsed to exactly what they denote.
use crate::cx::*;
use hodu_core::{einsum::ParsedEinsum, prelude::*};
use std::collections::{BTreeMap, BTreeSet};

struct P { ins: Vec<Vec<char>>, out: Vec<char>, sizes: BTreeMap<char, usize> }
/// the reference grammar: None when the equation must be refused
fn reference(eq: &str, shapes: &[Vec<usize>]) -> Option<P> {
    let cs: Vec<char> = eq.chars().filter(|&c| c != ' ').collect();
    // find "->" left to right, non-overlapping
    let mut cut = vec![]; let mut i = 0;
    while i + 1 < cs.len() { if cs[i] == '-' && cs[i + 1] == '>' { cut.push(i); i += 2; } else { i += 1; } }
    if cut.len() > 1 { return None; }
    let (lhs, out) = match cut.first() { Some(&k) => (cs[..k].to_vec(), Some(cs[k + 2..].to_vec())), None => (cs.clone(), None) };
    let ins: Vec<Vec<char>> = lhs.split(|&c| c == ',').map(|s| s.to_vec()).collect();
    if ins.len() != shapes.len() { return None; }
    let mut sizes = BTreeMap::new(); let mut count: BTreeMap<char, usize> = BTreeMap::new();
    for (s, d) in ins.iter().zip(shapes) {
        if s.len() != d.len() { return None; }
        for (&c, &n) in s.iter().zip(d) { *count.entry(c).or_default() += 1; if *sizes.entry(c).or_insert(n) != n { return None; } }
    }
    let out = match out { Some(o) => o, None => count.iter().filter(|(_, &n)| n == 1).map(|(&c, _)| c).collect() };
    let set: BTreeSet<char> = out.iter().cloned().collect();
    if set.len() != out.len() || out.iter().any(|c| !sizes.contains_key(c)) { return None; }
    Some(P { ins, out, sizes })
}
fn one(cx: &mut Cx, e: &str, shapes: &[Vec<usize>]) {
    let sh: Vec<Shape> = shapes.iter().map(|s| Shape::new(s)).collect();
    let rf: Vec<&Shape> = sh.iter().collect();
    cx.case("ParsedEinsum::parse", (e, shapes), || {
        match (ParsedEinsum::parse(e, &rf), reference(e, shapes)) {
            (Err(_), None) => Ok(()),
            (Err(x), Some(_)) => Err(format!("refused a well-formed equation: {}", x)),
            (Ok(_), None) => Err("accepted a malformed equation".into()),
            (Ok(p), Some(r)) => {
                let all: Vec<char> = r.sizes.keys().cloned().collect();
                let con: Vec<char> = all.iter().filter(|c| !r.out.contains(c)).cloned().collect();
                let pos = |c: &char| all.iter().position(|a| a == c).unwrap();
                eq("input subscripts", &p.input_subscripts, &r.ins)?;
                eq("output subscripts", &p.output_subscripts, &r.out)?;
                let mut ga = p.all_indices.clone(); ga.sort(); ga.dedup();
                eq("all indices", &ga, &all)?;
                eq("number of indices", p.all_indices.len(), all.len())?;
                let mut gc = p.contraction_indices.clone(); gc.sort();
                eq("contracted indices", &gc, &con)?;
                eq("index sizes", p.index_sizes.iter().map(|(a, b)| (*a, *b)).collect::<BTreeMap<_, _>>(), r.sizes.clone())?;
                eq("output shape", p.compute_output_shape().dims().to_vec(), r.out.iter().map(|c| r.sizes[c]).collect())?;
                eq("output elements", p.num_output_elements(), r.out.iter().map(|c| r.sizes[c]).product())?;
                eq("contraction elements", p.num_contraction_elements(), con.iter().map(|c| r.sizes[c]).product())?;
                // every id names the right index whatever order the parser numbers them in
                let name = |i: usize| p.all_indices.get(i).cloned();
                eq("index_sizes_vec", p.get_index_sizes_vec(), p.all_indices.iter().map(|c| r.sizes[c]).collect())?;
                eq("output ids", p.get_output_index_ids().iter().map(|&i| name(i)).collect::<Vec<_>>(), r.out.iter().map(|&c| Some(c)).collect())?;
                eq("contraction ids", p.get_contraction_index_ids().iter().map(|&i| name(i)).collect::<Vec<_>>(), p.contraction_indices.iter().map(|&c| Some(c)).collect())?;
                for (i, s) in r.ins.iter().enumerate() {
                    eq("axis -> index", p.get_dim_to_index_map(i).iter().map(|&j| name(j)).collect::<Vec<_>>(), s.iter().map(|&c| Some(c)).collect())?;
                    let m = p.get_index_to_dim_map(i);
                    eq("index -> axis length", m.len(), all.len())?;
                    for (j, &d) in m.iter().enumerate() { let c = name(j).unwrap(); eq("index -> axis", d, s.iter().position(|&x| x == c).map(|k| k as i32).unwrap_or(-1))?; }
                }
                let _ = pos;
                Ok(())
            },
        }
    });
}
pub fn run(cx: &mut Cx) {
    // every equation of up to 6 characters over a small alphabet, against shapes that fit and ones that do not
    let alph: Vec<char> = "ab,->".chars().collect();
    let mut layer = vec![String::new()];
    for _ in 0..=6 {
        for e in &layer {
            let ops: Vec<&str> = e.split("->").next().unwrap().split(',').collect();
            let fit: Vec<Vec<usize>> = ops.iter().map(|s| s.chars().map(|c| match c { 'a' => 2, 'b' => 3, _ => 4 }).collect()).collect();
            one(cx, e, &fit);
            let mut bad = fit.clone(); if let Some(x) = bad.iter_mut().flat_map(|v| v.iter_mut()).last() { *x += 1; } else { bad.push(vec![]); }
            one(cx, e, &bad);
        }
        let mut n = vec![]; for s in &layer { for c in &alph { let mut t = s.clone(); t.push(*c); n.push(t); } } layer = n;
    }
    let letters: Vec<char> = "ijklzAZé9".chars().collect();
    while cx.more() {
        let nops = 1 + cx.rng.below(4);
        let sz: Vec<usize> = letters.iter().map(|_| cx.rng.below(5)).collect();
        let mut ins: Vec<Vec<usize>> = (0..nops).map(|_| { let k = cx.rng.below(5); (0..k).map(|_| cx.rng.below(letters.len())).collect() }).collect();
        if cx.rng.below(8) == 0 { ins.push(vec![]); }
        let mut shapes: Vec<Vec<usize>> = ins.iter().map(|v| v.iter().map(|&i| sz[i]).collect()).collect();
        let mut e: String = ins.iter().map(|v| v.iter().map(|&i| letters[i]).collect::<String>()).collect::<Vec<_>>().join(",");
        if cx.rng.below(4) != 0 {
            e.push_str("->");
            let mut used: Vec<usize> = ins.concat(); used.sort(); used.dedup(); cx.rng.shuffle(&mut used);
            let k = cx.rng.below(used.len() + 1); for &i in &used[..k] { e.push(letters[i]); }
            match cx.rng.below(12) { 0 => e.push(letters[0]), 1 => e.push_str("->"), 2 => e.push(','), _ => {} }
        }
        match cx.rng.below(10) { 0 => shapes.push(vec![2]), 1 => { shapes.pop(); }, 2 => { if let Some(s) = shapes.iter_mut().find(|s| !s.is_empty()) { s[0] += 1; } }, 3 => { if let Some(s) = shapes.first_mut() { s.push(1); } }, _ => {} }
        let mut sp = String::new(); for c in e.chars() { if cx.rng.below(4) == 0 { sp.push(' '); } sp.push(c); }
        one(cx, &sp, &shapes);
    }
}
