//! C16: kills.
use crate::engine::*;
use crate::fault::*;

fn kills(b: &Base, torn: &[u32]) -> Vec<String> {
    let mut v = vec![];
    for (i, (name, n, _)) in b.ops.iter().enumerate() {
        v.push(format!("{i}:K"));
        if name == "write" && *n > 1 { for p in torn { v.push(format!("{i}:T:{p}")); } }
    }
    v
}

pub fn run(cfg: &Cfg) -> Report {
    let mut rep = Report::new("fault_enumeration", "the command is killed before every file-system call, and within every write after every part of it, of every scenario (thorough: twice in a row at all pairs of points), and then run again with --skip-unchanged: every output that exists is the old or the new version, and after the last run all are as after an uninterrupted run; a state is the tree after the kill");
    rep.assumptions.push("a kill of the process, not of the machine: what was written before it is kept".into());
    let root = scratch(cfg);
    let mut scs: Vec<(Scenario, Vec<&'static str>)> = vec![];
    for sc in scenarios() {
        if sc.stdin.is_some() { continue; }
        let fresh_outputs = sc.name == "skip unchanged";
        scs.push((sc.clone(), vec!["-u"]));
        if !fresh_outputs && sc.ok { scs.push((sc, vec![])); }
    }
    let bases: Vec<Base> = scs.iter().map(|(sc, x)| baseline(cfg, &root.join("b"), sc, x)).collect();
    let torn: &[u32] = if cfg.quick() { &[0, 1, 4, 7] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8] };
    let mut jobs: Vec<(usize, Vec<String>)> = vec![];
    for (k, b) in bases.iter().enumerate() {
        let one = kills(b, torn);
        if cfg.quick() {
            // twice: at the writing calls of the small scenarios
            if b.ops.len() < 34 {
                let few: Vec<&String> = one.iter().filter(|f| { let i: usize = f.split(':').next().unwrap().parse().unwrap(); is_writing(&b.ops[i].0) && b.ops[i].2 != "fd1" && !f.ends_with(":0") }).collect();
                for x in &few { for y in &few { jobs.push((k, vec![x.to_string(), y.to_string()])); } }
            }
        } else if b.ops.len() < 150 {
            for x in &one { for y in &one { if !(y.contains(":T:") && !(y.ends_with(":4") || y.ends_with(":1"))) { jobs.push((k, vec![x.clone(), y.clone()])); } } }
        }
        for x in one { jobs.push((k, vec![x])); }
        rep.extra.insert(format!("calls: {} {:?}", scs[k].0.name, scs[k].1), b.ops.len().to_string());
    }
    rep.absorb(explore(cfg, jobs.len() as u64, |w, i| {
        let (k, ks) = &jobs[i as usize];
        let ((sc, extra), base) = (&scs[*k], &bases[*k]);
        let dir = root.join(format!("w{}", w.id));
        setup(&dir, sc);
        let mut history = String::new();
        let outputs: Vec<&String> = base.tree.keys().filter(|p| base.tree.get(*p) != base.initial.get(*p) || sc.writes.iter().any(|x| &x.0 == *p)).collect();
        for (round, fault) in ks.iter().enumerate() {
            let r = crate::fault::run(cfg, &dir, sc, if round == 0 { extra } else { &["-u"] }, Some(fault), None);
            w.stats.transitions += 1;
            let tree = files(&dir);
            w.stats.state(&(sc.name, &tree));
            history += &format!("run {round} killed at {fault}{}: exit {:?}\n{}", if round == 0 { format!(" {:?}", base.ops[fault.split(':').next().unwrap().parse::<usize>().unwrap()]) } else { String::new() }, r.code, diff(&tree, &base.tree));
            if r.code.is_none() { w.stats.nontrivial_count += 1; } else { w.stats.count("second kill after the end of the run"); }
            for p in &outputs {
                let Some(c) = tree.get(*p) else { continue };
                if base.tree.get(*p) != Some(c) && base.initial.get(*p) != Some(c) {
                    return w.stats.violation(format!("{} {extra:?} killed at {}", sc.name, ks.join(" ")), format!("papyri {extra:?} {:?}\n{history}\n{p} is neither the old nor the new version: {} bytes", sc.args, c.len()));
                }
            }
        }
        let r = crate::fault::run(cfg, &dir, sc, &["-u"], None, None);
        w.stats.evaluations += 1;
        let tree = files(&dir);
        w.sample(|| format!("{} {extra:?} killed at {ks:?}, and run again: exit {:?}", sc.name, r.code));
        let wrong: Vec<&String> = base.tree.keys().filter(|p| base.tree.get(*p) != tree.get(*p)).collect();
        if !wrong.is_empty() || (r.code == Some(0)) != sc.ok {
            w.stats.violation(format!("{} {extra:?} killed at {}", sc.name, ks.join(" ")), format!("papyri {extra:?} {:?}\n{history}\nthen run again with --skip-unchanged: exit {:?}\nfiles, compared with those of an uninterrupted run:\n{}\nstderr: {}", sc.args, r.code, diff(&tree, &base.tree), r.stderr));
        }
    }));
    remove_scratch(&root);
    rep
}
