//! Calls of the Rust version, one a line: function, settings as flags, arguments, with tabs between.

use std::io::{BufRead as _, Write as _, stdin, stdout};

use latkerlo_jvotci::{
    Jvonunfli, SETTINGS_ITERATOR, Settings, analyze_brivla, get_lujvo, get_lujvo_with_analytics, get_veljvo, grll, is_brivla,
    normalize, score_lujvo,
    tarmi::is_gismu,
    tools::{get_rafsi_indices, is_gismu_or_lujvo},
};

fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(","))
}
/// Text of a field: \t, \n and \\ stand for tab, newline and backslash.
fn plain(s: &str) -> String {
    let mut o = String::new();
    let mut cs = s.chars();
    while let Some(c) = cs.next() {
        o.push(if c == '\\' {
            match cs.next() {
                Some('t') => '\t',
                Some('n') => '\n',
                Some('r') => '\r',
                _ => '\\',
            }
        } else {
            c
        });
    }
    o
}
fn name(t: &str) -> &str {
    match t {
        "Gismu" => "GISMU",
        "Zihevla" => "ZIhEVLA",
        "Lujvo" => "LUJVO",
        "ExtendedLujvo" => "EXTENDED_LUJVO",
        "Rafsi" => "RAFSI",
        "Cmevla" => "CMEVLA",
        t => t,
    }
}
/// A settings value, field by field.
fn fields(s: &Settings) -> String {
    format!(
        "[{},{},{},{},{},{}]",
        s.generate_cmevla,
        q(&s.y_hyphens.to_string()),
        q(&s.consonants.to_string()),
        s.exp_rafsi,
        s.glides,
        s.allow_mz
    )
}

fn answer(p: &[String]) -> Result<String, Jvonunfli> {
    let s = p[1].parse::<Settings>().unwrap_or_default();
    let a = p.get(2).map_or("", String::as_str);
    Ok(match p[0].as_str() {
        "analyse" => {
            let (t, d) = analyze_brivla(a, &s)?;
            format!("[{},{}]", q(name(&format!("{t:?}"))), list(&d))
        }
        "veljvo" => list(&get_veljvo(a, &s)?),
        "score" => score_lujvo(a, &s)?.to_string(),
        "isbrivla" => is_brivla(a, &s).to_string(),
        "build" => {
            let (w, sc, ix) = get_lujvo_with_analytics(a, &s)?;
            format!("[{},{sc},{ix:?}]", q(&w))
        }
        "forms" => format!(
            "[{}]",
            grll(a, &s)?.iter().map(|x| list(&x.iter().map(|y| y.0.to_string()).collect::<Vec<_>>())).collect::<Vec<_>>().join(",")
        ),
        "lujvo" => q(&get_lujvo(a, &s)?),
        "indices" => format!("{:?}", get_rafsi_indices(&p[2..].iter().map(String::as_str).collect::<Vec<_>>())),
        "normalise" => q(&normalize(a)),
        "isgismu" => is_gismu(a, &s).to_string(),
        "gismuorlujvo" => is_gismu_or_lujvo(a, &s)?.to_string(),
        // flag strings: parse the first, then apply the others one after another
        "flags" => match a.parse::<Settings>() {
            Err(_) => "[null,[]]".to_string(),
            Ok(mut x) => {
                let first = fields(&x);
                let shown = x.to_string();
                let again = shown.parse::<Settings>().map(|y| y == x).unwrap_or(false);
                let steps = p[3..]
                    .iter()
                    .map(|f| {
                        let ok = x.apply_flags(f).is_some();
                        format!("[{ok},{},{}]", fields(&x), q(&x.to_string()))
                    })
                    .collect::<Vec<_>>();
                format!("[[{first},{},{again}],[{}]]", q(&shown), steps.join(","))
            }
        },
        // the same calls made by several threads at once: which one, and its answer, as they come
        "threads" => {
            let calls = p[2..].iter().map(|c| c.split('\x1f').map(String::from).collect::<Vec<_>>()).collect::<Vec<_>>();
            let done = std::sync::Mutex::new(Vec::new());
            let gate = std::sync::Barrier::new(4);
            std::thread::scope(|s| {
                for k in 0..4 {
                    let (calls, done, gate) = (&calls, &done, &gate);
                    s.spawn(move || {
                        gate.wait();
                        for j in 0..calls.len() * 3 {
                            let i = (j * (2 * k + 1) + k * 2) % calls.len();
                            let o = full(&calls[i]);
                            done.lock().unwrap().push(format!("[{i},{o}]"));
                        }
                    });
                }
            });
            format!("[{}]", done.into_inner().unwrap().join(","))
        }
        "all" => format!("[{}]", SETTINGS_ITERATOR.iter().map(fields).collect::<Vec<_>>().join(",")),
        _ => "null".to_string(),
    })
}

/// The error, or "" and the answer.
fn full(p: &[String]) -> String {
    match std::panic::catch_unwind(|| answer(p)) {
        Err(_) => "[\"panic\",null]".to_string(),
        Ok(Err(e)) => format!("[{},null]", q(format!("{e:?}").split('(').next().unwrap())),
        Ok(Ok(v)) => format!("[\"\",{v}]"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut out = stdout();
    for l in stdin().lock().lines() {
        let p = l.unwrap().split('\t').map(plain).collect::<Vec<_>>();
        writeln!(out, "{}", full(&p)).unwrap();
        out.flush().unwrap();
    }
}
