//! G01: saved grammars.

use super::forests::*;
use super::gram::*;
use super::ops::*;
use super::session::*;
use gearley_default_grammar::DefaultGrammar;
use gearley_grammar::Grammar;
use simcore::*;

/// A file that is replaced as a whole; what was written is there after a crash only if the write went through.
#[derive(Default)]
struct Disk {
    durable: Option<(Format, Vec<u8>)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Format {
    Serde,
    Mini,
    /// Without field names: everything is where it is.
    Binary,
}

fn save(f: Format, g: &DefaultGrammar) -> Result<Vec<u8>, String> {
    match f {
        Format::Serde => serde_json::to_vec(g).map_err(|e| e.to_string()),
        Format::Mini => Ok(miniserde::json::to_string(g).into_bytes()),
        Format::Binary => bincode::serialize(g).map_err(|e| e.to_string()),
    }
}

fn load(f: Format, image: &[u8]) -> Result<DefaultGrammar, String> {
    match f {
        Format::Serde => serde_json::from_slice(image).map_err(|e| e.to_string()),
        Format::Mini => {
            // What is no text any more is refused by the reader of the file.
            let text = std::str::from_utf8(image).map_err(|e| e.to_string())?;
            miniserde::json::from_str(text).map_err(|e| e.to_string())
        }
        Format::Binary => bincode::deserialize(image).map_err(|e| e.to_string()),
    }
}

fn draw_format(ctx: &mut Ctx) -> Format {
    *ctx.pick(&[Format::Serde, Format::Mini, Format::Mini, Format::Binary])
}

fn shown<T: std::fmt::Debug>(t: T) -> String {
    format!("{t:?}")
}

/// Everything that recognizers and forests can ask of a grammar.
fn answers(g: &TestGrammar) -> Vec<(String, String)> {
    let d = g.default_grammar().unwrap();
    let mut v: Vec<(String, String)> = vec![];
    let mut put = |k: String, x: String| v.push((k, x));
    put("symbols".into(), shown((d.num_syms(), d.num_gensyms(), d.num_rules())));
    put("special".into(), shown((d.sof(), d.eof(), d.start_sym(), d.externalized_start_sym(), d.useless_symbol())));
    put("trivial".into(), shown((d.has_trivial_derivation(), d.dot_before_eof())));
    put("events".into(), shown(d.events()));
    put("trace".into(), shown(d.trace()));
    put("rhs1".into(), shown(d.rhs1()));
    put("intermediate".into(), shown(d.eliminated_nulling_intermediate()));
    let f = d.forest_info();
    put("forest info".into(), shown((f.max_nulling_symbol(), (0..d.num_rules() as u32).map(|r| f.external_origin(r)).collect::<Vec<_>>())));
    let total = d.num_syms() + d.num_gensyms();
    for i in 0..d.num_syms() {
        let s = sym(i);
        let bits = |b: &bit_matrix::row::BitSlice| b.iter_bits(d.num_syms()).collect::<Vec<_>>();
        put(format!("prediction {i}"), shown(bits(d.prediction_row(s))));
        put(format!("lr set {i}"), shown(bits(d.lhs_lr_set(s))));
        put(format!("completions {i}"), shown(d.completions(s)));
    }
    for i in d.num_syms()..total {
        put(format!("gen completion {i}"), shown(d.gen_completion(sym(i))));
    }
    for i in 0..total {
        put(format!("external {i}"), shown(d.to_external(sym(i))));
    }
    for dot in 0..d.num_rules() as u32 {
        put(format!("rule {dot}"), shown((d.get_lhs(dot), d.get_rhs1(dot), d.rhs1_or_lhs(dot), d.external_origin(dot), d.nulling(dot))));
        put(format!("lookahead {dot}"), shown(d.lookahead_set(dot).iter_bits(d.num_syms()).collect::<Vec<_>>()));
    }
    for (o, &e) in g.ext.iter().enumerate() {
        put(format!("internal {o}"), shown(d.to_internal(sym(e))));
    }
    v
}

fn same(a: &TestGrammar, b: &TestGrammar, what: &str) -> R {
    let (x, y) = no_panic("asking a grammar", || (answers(a), answers(b)))?;
    for (p, q) in x.iter().zip(&y) {
        ensure!(p == q, "restored-table", "{what}: {} was {}, restored {}", p.0, short(&p.1), short(&q.1));
    }
    ensure!(x.len() == y.len(), "restored-table", "{what}: other numbers of symbols or rules");
    Ok(())
}

pub fn g01(ctx: &mut Ctx) -> R {
    let unambiguous = ctx.chance(1, 2);
    let o = gen_orig(ctx, &GenOpts { unambiguous, ..Default::default() });
    let g = TestGrammar::prepare_real(o, ctx);
    if ctx.tracing() {
        let d = g.describe();
        ctx.note(format_args!("grammar {d}"));
    }
    let mut disk = Disk::default();
    // An older file may be there, of another version of the user's grammar.
    let older = if ctx.chance(1, 3) {
        let o = gen_orig(ctx, &GenOpts { small: true, ..Default::default() });
        let b = TestGrammar::prepare_real(o, ctx);
        let f = draw_format(ctx);
        disk.durable = save(f, b.default_grammar().unwrap()).ok().map(|i| (f, i));
        Some(b)
    } else {
        None
    };
    let mut old_there = older.is_some();
    // The generations: who wrote an image, and what was restored from it.
    let mut gens: Vec<TestGrammar> = vec![];
    let n = 1 + ctx.below(4);
    for k in 0..n {
        ctx.step();
        let s0 = ctx.span_start();
        let from = ctx.below(gens.len() as u32 + 1) as usize;
        let src = if from == 0 { &g } else { &gens[from - 1] };
        let f = draw_format(ctx);
        let image = match no_panic("saving", || save(f, src.default_grammar().unwrap()))? {
            Ok(i) => i,
            Err(e) => return violation("not-saved", format!("generation {from}: {f:?}: {e}")),
        };
        ctx.probe(match f {
            Format::Serde => "saved-serde",
            Format::Mini => "saved-miniserde",
            Format::Binary => "saved-bincode",
        });
        if from > 0 {
            ctx.probe("second-generation");
        }
        ev!(ctx, "save {k}: generation {from} with {f:?}: {} bytes", image.len());
        match ctx.below(4) {
            0 => {
                // The write is torn by a crash; any reader must notice.
                ctx.fired("crash-torn-write");
                for _ in 0..1 + ctx.below(6) {
                    let cut = match ctx.below(4) {
                        0 => image.len() - 1 - ctx.below((image.len() as u32).min(8)) as usize % image.len(),
                        _ => ctx.below(image.len() as u32) as usize,
                    };
                    let torn = &image[..cut];
                    let got = no_panic("restoring a torn image", || load(f, torn).is_ok())?;
                    ensure!(!got, "torn-accepted", "{f:?} image of {} bytes cut at {cut} accepted", image.len());
                }
                // The user writes it again.
                disk.durable = Some((f, image));
                old_there = false;
            }
            1 if disk.durable.is_some() => {
                // The crash came before anything reached the disk: the old image is still there.
                ctx.fired("crash-lost-write");
            }
            _ => {
                disk.durable = Some((f, image));
                old_there = false;
            }
        }
        let (r, image) = disk.durable.as_ref().unwrap();
        match no_panic("restoring", || load(*r, image))? {
            Ok(d) => {
                if let (Some(b), true) = (&older, old_there) {
                    ctx.probe("older-file");
                    same(b, &b.with_default_grammar(d), "the older file")?;
                    continue;
                }
                let restored = g.with_default_grammar(d);
                same(&g, &restored, &format!("save {k} read by {r:?}"))?;
                gens.push(restored);
            }
            Err(e) => return violation("not-restored", format!("save {k}: an image of {} bytes is refused by {r:?}: {e}", image.len())),
        }
        ctx.span_end(s0);
    }
    // Sessions: on the original, and on up to three others with their own forests, in a drawn interleaving.
    let kind = draw_kind(ctx);
    let limit = draw_limit(ctx);
    let all: Vec<&TestGrammar> = std::iter::once(&g).chain(&gens).collect();
    let mut script: Vec<X> = vec![];
    for _ in 0..ctx.below(3) {
        let fuses = ctx.chance(1, 3);
        script.extend(abandoned(ctx, &g, ScriptOpts { fuses, recreate: true, max_len: 8 }));
    }
    script.extend(judged(ctx, &g, 10, true).into_iter().map(|x| X::Op(x.0)));
    show_script(ctx, &script);
    let mut machines = vec![];
    let mut names = vec![];
    for k in 0..1 + gens.len().min(3) {
        let by = if k == 0 { 0 } else { 1 + ctx.below(gens.len() as u32) as usize };
        let forest_by = if ctx.chance(1, 2) { by } else { ctx.below(all.len() as u32) as usize };
        if forest_by != by {
            ctx.probe("mixed-forest");
        }
        names.push(format!("generation {by} with a forest of generation {forest_by}"));
        machines.push((Machine::new(all[by], SimForest::new(kind, all[forest_by], 64, true), limit), 0));
    }
    ev!(ctx, "forest {kind:?} limit {limit}, sessions: {names:?}");
    let mut seen: Vec<Vec<Vec<XObs>>> = vec![vec![]; machines.len()];
    loop {
        let left: Vec<usize> = (0..machines.len()).filter(|&i| machines[i].1 < script.len()).collect();
        if left.is_empty() {
            break;
        }
        let i = *ctx.pick(&left);
        // A stretch of steps of one session.
        let stretch = 1 + ctx.below(6) as usize;
        for _ in 0..stretch {
            let (m, at) = &mut machines[i];
            let Some(x) = script.get(*at) else { break };
            match m.step(x) {
                Ok(v) => {
                    if let [XObs::Failed(k)] = v[..] {
                        ctx.fired(k);
                    }
                    seen[i].push(v)
                }
                Err(e) => return violation("panic", format!("{}: step {at} {x:?}: {e}", names[i])),
            }
            *at += 1;
        }
    }
    for i in 1..machines.len() {
        for (k, x) in script.iter().enumerate() {
            ensure!(
                seen[i][k] == seen[0][k],
                "restored-differs",
                "step {k} {x:?}: {} gave {}, the original {}",
                names[i],
                short(&seen[i][k]),
                short(&seen[0][k])
            );
            if matches!(seen[i][k].last(), Some(XObs::Obs(Obs::End { ok: true, .. }))) {
                ctx.nontrivial = true;
            }
        }
        if let Some(e) = machines[i].0.s.forest.error() {
            fail!("forest-protocol", "{}: {e}", names[i]);
        }
    }
    Ok(())
}
