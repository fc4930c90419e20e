#[path = "/repo/crates/jarl-core/src/rule_options/mod.rs"]
#[allow(dead_code)]
mod rule_options;
#[path = "/repo/crates/jarl-core/src/settings.rs"]
#[allow(dead_code)]
mod settings;
#[path = "/repo/crates/jarl-core/src/rule_set.rs"]
#[allow(dead_code)]
mod rule_set;
#[path = "/repo/crates/jarl-core/src/description.rs"]
#[allow(dead_code)]
mod description;
#[path = "/repo/crates/jarl-core/src/config.rs"]
#[allow(dead_code)]
mod config;
#[path = "/verif/build/gen/cfg.rs"]
#[allow(dead_code)]
mod lints;
#[path = "/repo/crates/jarl-core/src/toml.rs"]
#[allow(dead_code)]
mod toml;
#[path = "/verif/build/gen/args.rs"]
#[allow(dead_code)]
mod args;
/// settings from lists, through the text of a jarl.toml
#[allow(dead_code)]
fn settings_of(lists: &[(&str, &Option<Vec<String>>)]) -> Result<settings::Settings, String> {
    thread_local! { static DIR: tempfile::TempDir = tempfile::tempdir().unwrap(); }
    DIR.with(|d| {
        let mut t = String::from("[lint]\n");
        for (k, l) in lists { if let Some(l) = l {
            let q = |s: &String| { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 || c as u32 > 126 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } } o + "\"" };
            t += &format!("{k} = [{}]\n", l.iter().map(q).collect::<Vec<_>>().join(", "));
        } }
        let f = d.path().join("jarl.toml");
        std::fs::write(&f, &t).unwrap();
        let o = toml::parse_jarl_toml(&f).map_err(|e| format!("jarl.toml {t:?} not read: {e}"))?;
        o.into_settings(d.path()).map_err(|e| format!("jarl.toml {t:?} rejected: {e}"))
    })
}
