// oracle for P06, written from the property text: which rules `jarl check` reports, for random selections
use e2e::*;
use std::collections::BTreeSet;
fn main() {
    hx::run(|cx| {
        cx.rule("`jarl check` on a directory with a file per rule (58 of 60 rules) under random --select/--extend-select/--ignore and jarl.toml lists: the rules reported are those selected, unknown entries are errors. Non-trivial: all.");
        let (d, all) = trigger_dir();
        cx.case("every file is reported for its rule".into(), false, || { for (n, _) in TRIGGERS { if !all.get(&format!("t_{n}.R")).is_some_and(|s| s.iter().any(|x| x.0 == *n)) { return Err(format!("t_{n}.R: {:?}", all.get(&format!("t_{n}.R")))); } } Ok(()) });
        while cx.more() {
            let err = cx.rng.chance(1, 5);
            let mut l: [L; 6] = Default::default();
            for k in 0..6 { if cx.rng.chance(1, 2) { l[k] = Some(list(&mut cx.rng, k >= 3, err)); } }
            let file = cx.rng.pick(TRIGGERS).0;
            let whole = cx.rng.chance(3, 4);
            cx.case(format!("CLI {:?}, jarl.toml {:?}{}", &l[..3], &l[3..], if whole { String::new() } else { format!(", on t_{file}.R") }), true, || {
                let t = format!("[lint]\n{}{}{}", toml_list("select", &l[3]), toml_list("extend-select", &l[4]), toml_list("ignore", &l[5]));
                d.write("jarl.toml", &t);
                let j: Vec<String> = l[..3].iter().map(|x| x.as_ref().map(|v| v.join(",")).unwrap_or_default()).collect();
                let target = if whole { ".".to_string() } else { format!("t_{file}.R") };
                let mut a = vec!["check", "--output-format", "json", "--min-r-version", "999.0", &target];
                for (k, o) in ["--select", "--extend-select", "--ignore"].iter().enumerate() { if l[k].is_some() { a.push(o); a.push(&j[k]); } }
                let o = d.jarl(&a);
                let Some(want) = selected(&l) else { return if o.code == Some(255) && o.out.is_empty() { Ok(()) } else { Err(format!("an unknown entry is accepted: exit {:?} {:?}", o.code, o.out)) } };
                let r = o.report()?;
                let got: BTreeSet<(String, String)> = r.diags.into_iter().map(|x| (x.file, x.name)).collect();
                let want: BTreeSet<(String, String)> = all.iter().filter(|f| whole || *f.0 == target).flat_map(|(f, s)| s.iter().map(|x| (f.clone(), x.0.clone()))).filter(|x| want.contains(&x.1)).collect();
                if got == want { Ok(()) } else { Err(format!("reported in addition {:?}, not reported {:?}", got.difference(&want).collect::<Vec<_>>(), want.difference(&got).collect::<Vec<_>>())) }
            });
        }
    })
}
