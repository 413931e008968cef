//! Which checks decide a property, on which workload.
use crate::cli;
use crate::core::*;
use crate::items::{Item, Mode};
use crate::props::*;
use crate::props2::*;
use crate::props3::*;
use crate::props4::*;
use crate::rng::{hash, hex, Rng};

/// The check behind a kind of case.
pub fn kind(name: &str) -> Option<Check> {
    if let Some((k, spec)) = name.split_once(':') {
        let s = specs().iter().find(|s| s.name == spec)?;
        return Some(match k {
            "rt" => s.rt,
            "wire" => s.wire,
            "dec" => s.dec,
            "upd" => s.upd,
            "told" => s.told,
            _ => return None,
        });
    }
    Some(match name {
        "total" => total,
        "short" => short_inputs,
        "constructors" => constructors,
        "command-into-bytes" => command_into_bytes,
        "concat" => concat,
        "remainder" => remainder,
        "operand" => operand,
        "compress-block" => compress_block,
        "decompress" => decompress_all,
        "length-block" => length_block,
        "length-seed" => length_seed,
        "length-form" => length_form,
        "length-forms" => length_forms,
        "range" => out_of_range,
        "range-sweep" => out_of_range_sweep,
        "feed" => feed,
        "sequence" => sequence,
        "fault" => fault,
        "memory" => memory,
        "memory-lite" => memory_lite,
        "memory-values" => memory_values,
        "memory-values-lite" => memory_values_lite,
        "frugal" => frugal,
        "pure" => pure,
        "frames" => frames,
        "frame-heads" => frame_heads,
        "any-file" => any_file,
        "file-ids" => file_ids,
        "text-sink" => text_sink,
        "report" => report,
        "status-codes" => status_codes,
        "updates" => updates,
        "scrambled" => scrambled,
        "conversions" => conversions,
        #[cfg(feature = "wizzilab")]
        "conversions-wizzilab" => conversions_wizzilab,
        "tool" => cli::tool,
        "growth" => growth,
        "equal" => equal,
        "sinks" => sinks,
        "one-writer" => one_writer,
        "cut-short" => cut_short,
        "told-frame" => told_frame,
        "identifiers" => identifiers,
        "file-identifiers" => file_identifiers,
        "small-identifiers" => small_identifiers,
        "defaults" => defaults,
        _ => return None,
    })
}

/// All inputs of up to two bytes, in blocks: [item] or [item, first byte].
pub fn short_inputs(input: &[u8], o: &mut Obs) -> Verdict {
    let mut sub = Obs::default();
    match input.len() {
        1 => total(input, &mut sub)?,
        2 => {
            total(input, &mut sub)?;
            for b in 0..=255u8 {
                total(&[input[0], input[1], b], &mut sub)?;
            }
        }
        _ => {
            for b in 0..=255u8 {
                let mut x = input.to_vec();
                x.push(b);
                total(&x, &mut sub)?;
            }
        }
    }
    o.add("short inputs", if input.len() == 1 { 1 } else { 256 });
    o.add("accepted", *sub.tags.get("accepted").unwrap_or(&0));
    o.add("rejected", *sub.tags.get("rejected").unwrap_or(&0));
    o.distinct(input);
    Ok(())
}
/// All two and some three byte forms with one first byte.
fn length_forms(input: &[u8], o: &mut Obs) -> Verdict {
    length_form(input, o)?;
    for b in 0..=255u8 {
        for tail in [&[][..], &[0], &[0xFF], &[0x12, 0x34], &[0, 0, 0], &[0xFF, 0xFF, 0xFF, 0xFF], &[0x80, 0x01, 0x7F]] {
            let mut x = vec![input[0], b];
            x.extend_from_slice(tail);
            length_form(&x, o)?;
        }
    }
    Ok(())
}
/// All pairs of leading bytes of a frame, over a fixed body.
fn frame_heads(input: &[u8], o: &mut Obs) -> Verdict {
    let mut r = Rng::new(hash(input));
    for b in 0..=255u8 {
        let mut x = vec![input[0], input[1], b];
        let n = r.below(30) as usize;
        match r.below(3) {
            0 => x.extend(vec![0; n]),
            1 => x.extend(r.bytes(n)),
            _ => {
                let k = if input[0] < 4 { 3 } else { 0 };
                let it = &all_items()[item_index(if k == 3 { "transport" } else { "command" }) as usize];
                x.extend(r.bytes(2));
                x.extend((it.gen)(&mut r, Mode::Loose).0);
            }
        }
        frames(&x, o)?;
    }
    Ok(())
}

fn each(w: &mut Worker, shard: u64, shards: u64, n: u64, mut f: impl FnMut(&mut Worker, u64)) {
    let mut i = shard;
    while i < n && !w.stop() {
        f(w, i);
        i += shards;
    }
}
fn seeds(cx: &Cx, kind_name: &str, n: u64, rest: &[u8]) -> Rep {
    let check = kind(kind_name).unwrap();
    parallel(cx, |w, s, of| {
        each(w, s, of, n, |w, i| {
            let x = Rng::stream(cx.seed ^ hash(kind_name.as_bytes()), i).next();
            w.case(kind_name, check, &seeded(x, rest));
        })
    })
}
fn bytes(cx: &Cx, kind_name: &str) -> Rep {
    let check = kind(kind_name).unwrap();
    parallel(cx, |w, s, of| each(w, s, of, 256, |w, i| w.case(kind_name, check, &[i as u8])))
}
/// Inputs for items, fairly over all of them, with commands and frames more often.
fn drawn(cx: &Cx, kind_name: &str, n: u64, size: usize, f: impl Fn(&mut Rng, &Item) -> Vec<u8> + Sync) -> Rep {
    let check = kind(kind_name).unwrap();
    let all = all_items();
    parallel(cx, |w, s, of| {
        each(w, s, of, n, |w, i| {
            let mut r = Rng::stream(cx.seed ^ hash(kind_name.as_bytes()), i);
            let k = if i % 4 == 0 { r.below(6) as usize } else { (i as usize / 4) % all.len() };
            let mut b = f(&mut r, &all[k]);
            b.truncate(size);
            b.insert(0, k as u8);
            w.case(kind_name, check, &b);
        })
    })
}
fn huge(r: &mut Rng, k: usize) -> Vec<u8> {
    let n = 20_000 + r.below(60_000) as usize;
    match k {
        0 => vec![0u8; n],
        1 => [0x34u8, 7].iter().cycle().take(n).cloned().collect(),
        2 => {
            // one long operand
            let mut v = vec![0x20, 0x40, 0];
            v.extend([0x80 | (n >> 16) as u8, (n >> 8) as u8, n as u8]);
            v.extend(r.bytes(n));
            v
        }
        3 => {
            let mut v = vec![];
            while v.len() < n {
                let mut s = crate::model::S::gen(r);
                let _ = crate::model::action(&mut s, Some(*[1u8, 2, 4, 8, 10, 23, 32, 34, 35, 48].get(v.len() % 10).unwrap()));
                v.extend(s.raw.bytes);
            }
            v
        }
        _ => vec![*r.pick(&[0x62u8, 0x20, 0xFF, 0x08, 0x31]); n],
    }
}
fn spec_kinds(cx: &Cx, prefix: &str, n: u64, only_files: bool) -> Rep {
    let kinds: Vec<(String, Check)> = specs()
        .iter()
        .filter(|s| !only_files || s.file)
        .map(|s| {
            let name = format!("{}:{}", prefix, s.name);
            let c = kind(&name).unwrap();
            (name, c)
        })
        .collect();
    parallel(cx, |w, s, of| {
        each(w, s, of, n, |w, i| {
            // commands and actions get half of the cases
            let k = if i % 2 == 0 && !only_files { (i / 2) as usize % 2 } else { (i / 2) as usize % kinds.len() };
            let x = Rng::stream(cx.seed ^ hash(prefix.as_bytes()), i).next();
            let (name, check) = &kinds[k];
            w.case(name, *check, &seeded(x, &[(x % 150 == 7) as u8]));
        })
    })
}
/// Operands of 4 MiB and more.
fn giants(cx: &Cx, prefix: &str) -> Rep {
    let names = ["write-file-data", "return-file-data", "action-query", "status", "write-file-data-flush", "break-query", "query", "interface-status-op"];
    parallel(cx, |w, s, of| {
        each(w, s, of, cx.n(16, 160), |w, i| {
            let name = format!("{}:{}", prefix, names[i as usize % names.len()]);
            let x = Rng::stream(cx.seed ^ 0x6161, i).next();
            w.case(&name, kind(&name).unwrap(), &seeded(x, &[2]));
        })
    })
}
fn spec_decode(cx: &Cx, n: u64, only_files: bool) -> Rep {
    spec_bytes(cx, "dec", n, only_files)
}
fn spec_bytes(cx: &Cx, prefix: &str, n: u64, only_files: bool) -> Rep {
    let list: Vec<_> = specs().iter().filter(|s| !only_files || s.file).collect();
    parallel(cx, |w, s, of| {
        each(w, s, of, n, |w, i| {
            let mut r = Rng::stream(cx.seed ^ 0xDEC0DE, i);
            let k = if i % 3 == 0 && !only_files { (i / 3) as usize % 2 } else { (i / 3) as usize % list.len() };
            let sp = list[k];
            let m = if r.chance(1, 200) { Mode::Big } else { *r.pick(&[Mode::Canon, Mode::Loose, Mode::Loose, Mode::Hostile]) };
            let mut b = (sp.gen)(&mut r, m).0;
            if r.chance(1, 3) {
                b = mutate(&mut r, b);
            }
            if r.chance(1, 10) {
                b.truncate(r.below(b.len() as u64 + 1) as usize);
            }
            let name = format!("{}:{}", prefix, sp.name);
            w.case(&name, if prefix == "dec" { sp.dec } else { sp.told }, &b);
        })
    })
}
/// All first and second bytes of actions and of the other small items, with plausible tails.
fn spec_heads(cx: &Cx, rounds: u64) -> Rep {
    let list: Vec<_> = specs().iter().collect();
    let act = list.iter().position(|s| s.name == "action").unwrap();
    parallel(cx, |w, s, of| {
        each(w, s, of, 65536 * rounds, |w, i| {
            let mut r = Rng::stream(cx.seed ^ 0x4EAD, i);
            let mut b = vec![(i >> 8) as u8, i as u8];
            let n = r.below(40) as usize;
            match r.below(3) {
                0 => b.extend(vec![*r.pick(&[0u8, 1, 2]); n]),
                _ => b.extend(r.bytes(n)),
            }
            w.case("dec:action", list[act].dec, &b);
        });
        each(w, s, of, 256 * list.len() as u64, |w, i| {
            let mut r = Rng::stream(cx.seed ^ 0x4EAE, i);
            let sp = list[i as usize / 256];
            let mut b = (sp.gen)(&mut r, Mode::Loose).0;
            if b.is_empty() {
                b.push(0);
            }
            b[0] = i as u8;
            w.case(&format!("dec:{}", sp.name), sp.dec, &b);
            // and every byte of it in turn
            for j in 1..b.len().min(24) {
                let mut c = b.clone();
                c[j] = r.byte();
                w.case(&format!("dec:{}", sp.name), sp.dec, &c);
            }
        });
    })
}

pub fn run(prop: &str, cx: &Cx) -> Rep {
    let mut rep = Rep::default();
    match prop {
        "C01" => {
            let all = all_items();
            let k = all.len() as u64;
            rep.merge(parallel(cx, |w, s, of| {
                each(w, s, of, k, |w, i| w.case("short", short_inputs, &[i as u8]));
                each(w, s, of, k * 256, |w, i| w.case("short", short_inputs, &[(i / 256) as u8, i as u8]));
                if cx.thorough {
                    each(w, s, of, 8 * 65536, |w, i| w.case("short", short_inputs, &[(i / 65536) as u8, (i / 256) as u8, i as u8]));
                }
            }));
            rep.merge(drawn(cx, "total", cx.n(400_000, 20_000_000), 4096, |r, it| sample(r, it)));
            rep.merge(parallel(cx, |w, s, of| {
                each(w, s, of, cx.n(24, 200), |w, i| {
                    let mut r = Rng::stream(cx.seed, i);
                    let mut b = huge(&mut r, i as usize % 5);
                    b.insert(0, [0u8, 1, 2, 4, 5][(i / 5) as usize % 5]);
                    w.case("total", total, &b);
                })
            }));
            rep.merge(parallel(cx, |w, s, of| {
                each(w, s, of, cx.n(60_000, 1_000_000), |w, i| {
                    let mut r = Rng::stream(cx.seed ^ 0x11A2, i);
                    w.case("total", total, &liar(&mut r));
                })
            }));
            rep.merge(drawn(cx, "total", cx.n(1_000, 40_000), 80_000, |r, it| (it.gen)(r, Mode::Big).0));
        }
        "C02" => {
            rep.merge(spec_kinds(cx, "rt", cx.n(500_000, 20_000_000), false));
            rep.merge(giants(cx, "rt"));
            rep.merge(seeds(cx, "command-into-bytes", cx.n(100, 5_000), &[1]));
            rep.merge(seeds(cx, "constructors", cx.n(20_000, 300_000), &[]));
            rep.merge(seeds(cx, "command-into-bytes", cx.n(20_000, 300_000), &[]));
        }
        "C03" => {
            rep.merge(spec_kinds(cx, "wire", cx.n(600_000, 25_000_000), false));
            rep.merge(giants(cx, "wire"));
        }
        "C04" => {
            rep.merge(spec_heads(cx, cx.n(2, 40)));
            rep.merge(spec_decode(cx, cx.n(600_000, 25_000_000), false));
        }
        "C05" => {
            rep.merge(seeds(cx, "concat", cx.n(40_000, 1_500_000), &[]));
            rep.merge(seeds(cx, "concat", cx.n(250, 10_000), &[1]));
            let k = all_items().len() as u64;
            rep.merge(parallel(cx, |w, s, of| {
                each(w, s, of, cx.n(1500, 40_000) * k, |w, i| {
                    let x = Rng::stream(cx.seed ^ 0x3E3, i).next();
                    w.case("remainder", remainder, &seeded(x, &[(i % k) as u8]));
                });
                each(w, s, of, cx.n(6, 200) * k, |w, i| {
                    let x = Rng::stream(cx.seed ^ 0x3E4, i).next();
                    w.case("remainder", remainder, &seeded(x, &[(i % k) as u8, 1]));
                })
            }));
        }
        "C06" => {
            rep.merge(seeds(cx, "operand", cx.n(400_000, 15_000_000), &[]));
            rep.merge(seeds(cx, "operand", cx.n(2_000, 60_000), &[1]));
        }
        "C07" => {
            rep.merge(bytes(cx, "decompress"));
            rep.merge(parallel(cx, |w, s, of| {
                // every number that can be compressed and some beyond
                each(w, s, of, 507904 / 1024 + 3, |w, i| w.case("compress-block", compress_block, &(i as u32 * 1024).to_le_bytes()));
                // sparse above, exhaustive when thorough
                each(w, s, of, cx.n(200, 4_194_304), |w, i| {
                    let b = if cx.thorough { i as u32 * 1024 } else { (Rng::stream(cx.seed, i).next() as u32) & !1023 };
                    w.case("compress-block", compress_block, &b.to_le_bytes());
                });
                for b in [0xFFFF_FC00u32, 0x8000_0000, 0x7FFF_FC00, 507904 - 512, 1 << 19] {
                    w.case("compress-block", compress_block, &b.to_le_bytes());
                }
            }));
        }
        "C08" => {
            rep.merge(bytes(cx, "length-forms"));
            rep.merge(parallel(cx, |w, s, of| {
                // around every boundary of a form, and a stretch from zero
                each(w, s, of, 40, |w, i| w.case("length-block", length_block, &(i as u32 * 4096).to_le_bytes()));
                for bit in 6..32u32 {
                    let b = (1u64 << bit).saturating_sub(2048) as u32;
                    if bit as u64 % of == s {
                        w.case("length-block", length_block, &b.to_le_bytes());
                    }
                }
                each(w, s, of, cx.n(600, 262_144), |w, i| {
                    let b = if cx.thorough { i as u32 * 4096 } else { Rng::stream(cx.seed ^ 8, i).next() as u32 >> 2 & !4095 };
                    w.case("length-block", length_block, &b.to_le_bytes());
                });
                w.case("length-block", length_block, &0xFFFF_F000u32.to_le_bytes());
            }));
            rep.merge(seeds(cx, "length-seed", cx.n(30_000, 500_000), &[]));
            rep.merge(parallel(cx, |w, s, of| {
                each(w, s, of, cx.n(200_000, 5_000_000), |w, i| {
                    let mut r = Rng::stream(cx.seed ^ 88, i);
                    let n = 1 + r.below(7) as usize;
                    let b = r.bytes(n);
                    w.case("length-form", length_form, &b);
                })
            }));
        }
        "C09" => {
            rep.merge(bytes(cx, "range-sweep"));
            rep.merge(seeds(cx, "range", cx.n(300_000, 10_000_000), &[]));
        }
        "C10" => {
            rep.merge(drawn(cx, "feed", cx.n(150_000, 5_000_000), 700, |r, it| sample(r, it)));
            rep.merge(drawn(cx, "feed", cx.n(500, 20_000), 80_000, |r, it| (it.gen)(r, Mode::Big).0));
            rep.merge(seeds(cx, "sequence", cx.n(40_000, 1_500_000), &[]));
        }
        "C11" => {
            rep.merge(drawn(cx, "fault", cx.n(60_000, 1_500_000), 250, |r, it| {
                if r.chance(4, 5) {
                    (it.gen)(r, Mode::Loose).0
                } else {
                    sample(r, it)
                }
            }));
            rep.merge(drawn(cx, "fault", cx.n(60, 2_000), 80_000, |r, it| (it.gen)(r, Mode::Big).0));
            rep.merge(seeds(cx, "text-sink", cx.n(20_000, 400_000), &[]));
        }
        "C12" => {
            rep.merge(seeds(cx, "memory-values", cx.n(6_000, 150_000), &[]));
            rep.merge(drawn(cx, "memory", cx.n(400, 8_000), 80_000, |r, it| (it.gen)(r, Mode::Big).0));
            // array files and everything else, at every cut
            rep.merge(drawn(cx, "memory", cx.n(60_000, 1_500_000), 400, |r, it| sample(r, it)));
            rep.merge(parallel(cx, |w, s, of| {
                each(w, s, of, cx.n(8_000, 200_000), |w, i| {
                    let (kind_name, x) = serial_case("memory", cx.seed ^ 0xC12, i);
                    let check = if kind_name == "memory-lite" { memory } else { kind(&kind_name).unwrap() };
                    w.case(&kind_name, check, &x);
                })
            }));
        }
        "C13" => {
            rep.merge(parallel(cx, |w, s, of| {
                each(w, s, of, cx.n(400_000, 10_000_000), |w, i| {
                    let mut r = Rng::stream(cx.seed ^ 0x11A, i);
                    w.case("frugal", frugal, &liar(&mut r));
                });
                each(w, s, of, all_items().len() as u64 * 256, |w, i| {
                    // lengths at the start
                    for tail in [&[][..], &[0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF], &[0, 0, 0xFF, 0xFF, 0xFF, 0xFF], &[0xFF, 0, 0xBF, 0xFF, 0xFF]] {
                        let mut x = vec![(i / 256) as u8, i as u8];
                        x.extend_from_slice(tail);
                        w.case("frugal", frugal, &x);
                    }
                });
                each(w, s, of, 30, |w, i| {
                    let mut r = Rng::stream(cx.seed, i);
                    let mut b = huge(&mut r, i as usize % 5);
                    b.insert(0, [0u8, 1, 4][(i / 5) as usize % 3]);
                    w.case("frugal", frugal, &b);
                });
            }));
            rep.merge(drawn(cx, "frugal", cx.n(300_000, 8_000_000), 4096, |r, it| sample(r, it)));
        }
        "C14" => rep.merge(seeds(cx, "pure", cx.n(1_500, 60_000), &[])),
        "C15" => {
            rep.merge(parallel(cx, |w, s, of| {
                each(w, s, of, 7 * 256, |w, i| w.case("frame-heads", frame_heads, &[(i / 256) as u8, i as u8]));
                each(w, s, of, cx.n(400_000, 15_000_000), |w, i| {
                    let mut r = Rng::stream(cx.seed ^ 0xF3A, i);
                    w.case("frames", frames, &gen_frame(&mut r));
                })
            }));
        }
        "C16" => {
            rep.merge(bytes(cx, "file-ids"));
            rep.merge(parallel(cx, |w, s, of| {
                each(w, s, of, 256 * 40, |w, i| {
                    let mut r = Rng::stream(cx.seed ^ 0xF11E, i);
                    let mut v = vec![i as u8, (i / 256) as u8, 0];
                    let n = r.below(90) as usize;
                    v.extend(r.bytes(n));
                    w.case("any-file", any_file, &v);
                });
                each(w, s, of, cx.n(300_000, 10_000_000), |w, i| {
                    let mut r = Rng::stream(cx.seed ^ 0xF11F, i);
                    w.case("any-file", any_file, &gen_any_file(&mut r));
                });
            }));
            rep.merge(spec_kinds(cx, "rt", cx.n(60_000, 2_000_000), true));
            rep.merge(spec_kinds(cx, "wire", cx.n(60_000, 2_000_000), true));
            rep.merge(spec_decode(cx, cx.n(120_000, 4_000_000), true));
        }
        "C17" => {
            rep.merge(bytes(cx, "status-codes"));
            rep.merge(seeds(cx, "report", cx.n(200_000, 6_000_000), &[]));
        }
        "C18" => {
            cli::set_bin(cx.bin.as_ref().unwrap());
            rep.merge(seeds(cx, "tool", cx.n(12_000, 250_000), &[]));
        }
        "C20" => {
            rep.merge(seeds(cx, "updates", cx.n(200_000, 6_000_000), &[]));
            rep.merge(spec_kinds(cx, "upd", cx.n(120_000, 3_000_000), false));
        }
        "C21" => {
            rep.merge(bytes(cx, "conversions"));
            #[cfg(feature = "wizzilab")]
            rep.merge(bytes(cx, "conversions-wizzilab"));
            rep.merge(seeds(cx, "scrambled", cx.n(40_000, 1_000_000), &[]));
            rep.merge(bytes(cx, "range-sweep"));
            rep.merge(bytes(cx, "decompress"));
        }
        "C22" => {
            rep.merge(parallel(cx, |w, s, of| {
                each(w, s, of, SHAPES * cx.n(2, 40), |w, i| {
                    let x = Rng::stream(cx.seed ^ 0x6120, i).next();
                    w.case("growth", growth, &seeded(x, &[(i % SHAPES) as u8, (cx.thorough && i % 8 == 5) as u8]));
                })
            }));
        }
        "C23" => {
            rep.merge(drawn(cx, "equal", cx.n(400_000, 12_000_000), 600, |r, it| sample(r, it)));
            rep.merge(drawn(cx, "equal", cx.n(400, 10_000), 80_000, |r, it| (it.gen)(r, Mode::Big).0));
        }
        "C24" => {
            rep.merge(drawn(cx, "sinks", cx.n(200_000, 6_000_000), 600, |r, it| if r.chance(3, 4) { (it.gen)(r, Mode::Loose).0 } else { sample(r, it) }));
            rep.merge(drawn(cx, "sinks", cx.n(400, 10_000), 80_000, |r, it| (it.gen)(r, Mode::Big).0));
            rep.merge(seeds(cx, "one-writer", cx.n(60_000, 2_000_000), &[]));
        }
        "C25" => {
            rep.merge(spec_bytes(cx, "told", cx.n(400_000, 20_000_000), false));
            rep.merge(parallel(cx, |w, s, of| {
                each(w, s, of, cx.n(200_000, 6_000_000), |w, i| {
                    let mut r = Rng::stream(cx.seed ^ 0xF3B, i);
                    w.case("told-frame", told_frame, &gen_frame(&mut r));
                })
            }));
            rep.merge(drawn(cx, "cut-short", cx.n(50_000, 2_000_000), 400, |r, it| if r.chance(2, 3) { (it.gen)(r, Mode::Loose).0 } else { (it.gen)(r, Mode::Canon).0 }));
            rep.merge(drawn(cx, "cut-short", cx.n(300, 10_000), 80_000, |r, it| (it.gen)(r, Mode::Big).0));
        }
        "C26" => {
            rep.merge(bytes(cx, "small-identifiers"));
            rep.merge(bytes(cx, "file-identifiers"));
            rep.merge(parallel(cx, |w, s, of| {
                each(w, s, of, 1, |w, _| {
                    w.case("defaults", defaults, &[0]);
                })
            }));
            let codes = crate::model::opcodes();
            rep.merge(parallel(cx, |w, s, of| {
                each(w, s, of, cx.n(300_000, 10_000_000), |w, i| {
                    let x = Rng::stream(cx.seed ^ 0x1D5, i).next();
                    w.case("identifiers", identifiers, &seeded(x, &[codes[(i % codes.len() as u64) as usize]]));
                })
            }));
        }
        _ => panic!("unknown property {}", prop),
    }
    rep
}

const VARIANT: &str = if cfg!(feature = "spec") {
    "spec"
} else if cfg!(feature = "subiot") {
    "subiot"
} else {
    "wizzilab"
};

/// The i-th case of a workload for interpreters.
pub fn serial_case(name: &str, seed: u64, i: u64) -> (String, Vec<u8>) {
    let all = all_items();
    let mut r = Rng::stream(seed ^ hash(name.as_bytes()) ^ hash(VARIANT.as_bytes()), i);
    match name {
        "memory" if i % 7 == 6 => ("memory-values-lite".into(), seeded(r.next(), &[])),
        "memory" => {
            // arrays of parts are where memory is handled by hand: a third of the cases
            let arrays = ["access-profile", "file-20", "access-profile-3", "file-2e", "phy-status", "firmware-version", "action", "file-0a"];
            let k = if i % 3 == 0 { item_index(arrays[(i / 3) as usize % arrays.len()]) as usize } else { (i - i / 3) as usize % all.len() };
            let mut b = if r.chance(3, 4) { (all[k].gen)(&mut r, Mode::Loose).0 } else { sample(&mut r, &all[k]) };
            if arrays.contains(&all[k].name) && r.chance(1, 4) && !b.is_empty() {
                // an undefined value somewhere within
                let at = r.below(b.len() as u64) as usize;
                b[at] = 0xFF;
            }
            if i % 3 == 0 && all[k].name == "action" {
                // an access profile inside file data
                let body = crate::items::draw(&mut r, Mode::Loose, |s| crate::model::file_body(s, 0x25, 65)).0;
                b = vec![0x20, 0x25, 0x00, 0x40, body.len() as u8];
                b.extend(body);
            }
            b.truncate(if arrays.contains(&all[k].name) { 72 } else { 40 });
            b.insert(0, k as u8);
            ("memory-lite".into(), b)
        }
        "pure" => ("pure".into(), seeded(r.next(), &[])),
        _ => panic!("unknown workload {}", name),
    }
}

/// One encoding and decoding, in text, without anything that depends on the host.
pub fn portable(seed: u64, i: u64) -> String {
    let mut r = Rng::stream(seed ^ hash(VARIANT.as_bytes()), i);
    let all = all_items();
    // every item once, then those with numbers of several bytes
    let wide = [
        "foreground", "background", "security-key", "lorawan", "lorawan-abp", "lorawan-otaa", "dash7-status", "file-properties", "file-header", "action", "channel",
        "dll-config", "phy-status", "sub-band", "ack-template", "addr-uid", "addr-vid", "file-01", "st-final", "query", "action", "dash7-config", "channel-status",
        #[cfg(feature = "wizzilab")]
        "tx-status-op",
        #[cfg(feature = "wizzilab")]
        "tx-status-op",
        #[cfg(feature = "wizzilab")]
        "final-status-op",
    ];
    let k = if (i / all.len() as u64) % 2 == 0 { i as usize % all.len() } else { item_index(wide[i as usize % wide.len()]) as usize };
    let m = if r.chance(1, 3) { Mode::Canon } else { Mode::Loose };
    let mut b = (all[k].gen)(&mut r, m).0;
    if !all[k].aligned {
        b = r.bytes(8);
    }
    b.truncate(if all[k].greedy { 40 } else { 72 });
    let o = match guard(|| match (all[k].slice)(&b, 0) {
        Ok(s) => format!("{} {} {} {:?}", s.rest, s.bits, s.value.dbg(), s.value.denc().map(|x| hex(&x))),
        Err(e) => e,
    }) {
        Ok(s) => s,
        Err(_) => "panic".into(),
    };
    format!("{} {} {} {:016x} {}", i, all[k].name, hex(&b), hash(o.as_bytes()), short(&o).replace('\n', " "))
}
