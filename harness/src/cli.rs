//! C18: the command line tool against the library.
use crate::core::*;
use crate::items::Codec;
use crate::props::*;
use crate::rng::{hex, Rng};
use dash7::app::command::Command;
use dash7::file::{File, FileId};
use dash7::link::{BackgroundFrame, ForegroundFrame};
use std::process::{Command as Proc, Stdio};
use std::sync::OnceLock;

static BIN: OnceLock<String> = OnceLock::new();
pub fn set_bin(b: &str) {
    let _ = BIN.set(b.into());
}

/// What may be printed; `None`: failure.
type Want = Option<Vec<String>>;

fn file(b: &[u8], id: u8) -> Want {
    let f: FileId = id.try_into().ok()?;
    let r = File::from_bytes((b, 0), f, b.len() as u32).ok()?;
    // with or without what is left over
    Some(vec![format!("{:?}", r), format!("{:?}", r.1)])
}
fn any_file(b: &[u8]) -> Want {
    (0..=0x2Eu8).find_map(|id| file(b, id))
}
fn foreground(b: &[u8]) -> Want {
    ForegroundFrame::whole(b).ok().map(|x| vec![format!("{:?}", x)])
}
fn background(b: &[u8]) -> Want {
    BackgroundFrame::whole(b).ok().map(|x| vec![format!("{:?}", x)])
}
fn alp(b: &[u8]) -> Want {
    Command::whole(b).ok().map(|x| vec![format!("{}", x)])
}

/// Spell bytes: case and whitespace vary.
fn spell(r: &mut Rng, b: &[u8]) -> String {
    let style = r.below(4);
    let mut s = String::new();
    for c in hex(b).chars() {
        let c = match style {
            0 => c,
            1 => c.to_ascii_lowercase(),
            _ if r.chance(1, 2) => c.to_ascii_lowercase(),
            _ => c,
        };
        s.push(c);
        if style == 3 && r.chance(1, 5) {
            s.push(*r.pick(&[' ', '\t', '\n', ' ', '\u{a0}', '\r', '\u{2003}']));
        }
    }
    if style == 3 {
        s = format!(" {} ", s);
    }
    if style == 2 {
        s = s.as_bytes().chunks(2).map(|x| std::str::from_utf8(x).unwrap().to_string()).collect::<Vec<_>>().join(" ");
    }
    s
}

pub fn tool(input: &[u8], o: &mut Obs) -> Verdict {
    let mut r = Rng::new(seed_of(input));
    let all = all_items();
    let pick = |r: &mut Rng, names: &[&str]| -> Vec<u8> {
        let it = &all[item_index(*r.pick(names)) as usize];
        if r.chance(1, 60) {
            let mut b = (it.gen)(r, crate::items::Mode::Big).0;
            b.truncate(25_000);
            b
        } else if r.chance(3, 5) {
            (it.gen)(r, crate::items::Mode::Loose).0
        } else {
            sample(r, it)
        }
    };
    let mut args: Vec<String> = vec!["parse".into()];
    let b;
    let want;
    let what;
    match r.below(12) {
        0 | 1 => {
            b = pick(&mut r, &["foreground", "foreground", "foreground", "command"]);
            args.extend(["-t".into(), r.pick(&["fg", "foreground"]).to_string()]);
            want = foreground(&b);
            what = "foreground";
        }
        2 => {
            b = pick(&mut r, &["background", "background", "action"]);
            args.extend([r.pick(&["-t", "--type"]).to_string(), r.pick(&["bg", "background"]).to_string()]);
            want = background(&b);
            what = "background";
        }
        3 | 4 | 5 => {
            b = pick(&mut r, &["command", "action", "command", "transport"]);
            args.extend(["-t".into(), r.pick(&["alp", "a"]).to_string()]);
            want = alp(&b);
            what = "command";
        }
        6 => {
            b = pick(&mut r, &["command", "foreground", "background"]);
            args.extend(["-t".into(), r.pick(&["serial", "e"]).to_string()]);
            want = None;
            what = "serial";
        }
        7 | 8 => {
            let id = if r.chance(2, 3) { *r.pick(&crate::model::TYPED) } else { r.byte() };
            let mut x = crate::items::draw(&mut r, crate::items::Mode::Loose, |s| crate::model::file_body(s, id, 9)).0;
            if r.chance(1, 3) {
                x = mutate(&mut r, x);
            }
            b = x;
            args.extend(["-t".into(), r.pick(&["systemfile", "s"]).to_string(), "-f".into(), id.to_string()]);
            want = file(&b, id);
            what = "file";
        }
        9 => {
            b = pick(&mut r, &["file-02", "file-20", "file-09", "file-05", "file-00", "command"]);
            args.extend(["-t".into(), r.pick(&["systemfile", "s"]).to_string()]);
            want = any_file(&b);
            what = "any file";
        }
        _ => {
            b = pick(&mut r, &["foreground", "background", "command", "file-20", "file-02", "network", "action"]);
            want = foreground(&b).or_else(|| background(&b)).or_else(|| alp(&b)).or_else(|| any_file(&b));
            what = "anything";
        }
    }
    let mut text = spell(&mut r, &b);
    let mut want = want;
    let mut how = what.to_string();
    if r.chance(1, 15) {
        // not hexadecimal
        let at = r.below(text.len() as u64 + 1) as usize;
        let at = (0..=at).rev().find(|i| text.is_char_boundary(*i)).unwrap();
        match r.below(3) {
            0 => text.insert(at, 'g'),
            1 => text.insert(at, '0'),
            _ => text.insert(at, '€'),
        }
        want = None;
        how = "not hexadecimal".into();
    }
    // a text starting with a dash is no text, and huge ones do not fit a command line
    if text.len() > 60_000 {
        return Ok(());
    }
    // what does not matter: the order of the options, how much is logged, a file id where no file is asked for
    if !args.contains(&"-f".to_string()) && what != "any file" && r.chance(1, 8) {
        args.extend(["-f".into(), r.byte().to_string()]);
    }
    if let (Some(at), true) = (args.iter().position(|a| a == "-t" || a == "--type"), r.chance(1, 10)) {
        let t = args.remove(at + 1);
        args[at] = format!("--type={}", t);
    }
    let first = if r.chance(1, 4) { 1 } else { args.len() };
    args.insert(first, text);
    if r.chance(1, 8) {
        let at = if r.chance(1, 2) { 0 } else { args.len() };
        args.insert(at, r.pick(&["-v", "-q", "-vv", "-vvvv", "-qq", "--verbose", "--quiet"]).to_string());
    }
    // a command line that makes no sense
    if r.chance(1, 25) {
        match r.below(4) {
            0 => args.extend(["-t".into(), r.pick(&["", "alpha", "file", "1", "command"]).to_string()]),
            1 => args.extend(["-f".into(), r.pick(&["256", "-1", "0x40", "300", "", "4294967296"]).to_string()]),
            2 => args.push("00".into()),
            _ => args.truncate(1),
        }
        want = None;
        how = "senseless command line".into();
    }
    let Some(bin) = BIN.get() else { return fail("HARNESS no tool to run") };
    let mut p = Proc::new(bin);
    p.args(&args).stdin(Stdio::null()).env_remove("RUST_BACKTRACE").env_remove("RUST_LOG");
    if r.chance(1, 8) {
        p.env("RUST_LOG", *r.pick(&["trace", "debug", "dash7=trace", "off", "nonsense=="]));
    }
    let out = match p.output() {
        Ok(x) => x,
        Err(e) => return fail(format!("HARNESS cannot run the tool: {}", e)),
    };
    let stdout = String::from_utf8_lossy(&out.stdout).to_string();
    let desc = short(&args.join(" "));
    match want {
        Some(texts) => {
            ensure!(out.status.success(), "{}: the library accepts the input but the tool ends with {:?} {}", desc, out.status.code(), short(&String::from_utf8_lossy(&out.stderr)));
            ensure!(
                texts.iter().any(|t| t.trim_end() == stdout.trim_end()),
                "{}: the tool prints {:?} but the library decodes {:?}",
                desc,
                short(&stdout),
                short(&texts[0])
            );
            o.tag(&format!("printed: {}", how));
        }
        None => {
            ensure!(!out.status.success(), "{}: the library rejects the input but the tool succeeds and prints {:?}", desc, short(&stdout));
            ensure!(stdout.is_empty(), "{}: the library rejects the input but the tool prints {:?}", desc, short(&stdout));
            o.tag(&format!("failed: {}", how));
        }
    }
    o.distinct(args.join(" ").as_bytes());
    o.sample_with(|| format!("{} => {}", desc, short(&stdout)));
    Ok(())
}
