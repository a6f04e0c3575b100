//! Game records on disk: a conforming SGF writer, import after a restart (C06), and import of
//! records that the storage damaged (C07).

use crate::cx::*;
use crate::model::*;
use crate::party::*;
use crate::rng::*;
use crate::sut::*;
use crate::world::*;
use goban::rules::game::Game;
use goban::rules::Move;

fn pt(w: usize, i: usize) -> String {
    let (r, c) = (i / w, i % w);
    let mut s = String::new();
    s.push((b'a' + c as u8) as char);
    s.push((b'a' + r as u8) as char);
    s
}

fn quarters(q: i64) -> String {
    let a = q.unsigned_abs();
    let s = format!("{}{}", if q < 0 { "-" } else { "" }, a / 4);
    match a % 4 {
        0 => s,
        1 => s + ".25",
        2 => s + ".5",
        _ => s + ".75",
    }
}

fn result(e: End, rng: &mut Rng) -> String {
    let c = |c: u8| if c == 1 { "B" } else { "W" };
    let long = rng.pct(50);
    match e {
        End::Draw => if long { "Draw".into() } else { "D".into() },
        End::Resign(w) => format!("{}+{}", c(w), if long { "Resign" } else { "R" }),
        End::Time(w) => format!("{}+{}", c(w), if long { "Time" } else { "T" }),
        End::Forfeit(w) => format!("{}+{}", c(w), if long { "Forfeit" } else { "F" }),
        End::Score(w, s) => format!("{}+{}", c(w), quarters(s)),
    }
}

/// What the writer is told to record.
struct Rec<'a> {
    cfg: &'a Cfg,
    komi4: i32,
    /// (colour, None = pass)
    moves: Vec<(u8, Option<usize>)>,
    result: Option<End>,
    pl: u8,
    handicap_prop: bool,
}

const NAMES: [&str; 5] = ["Honinbo", "棋士", "O'Hara; (jr)", "x", "a:b"];
const COMMENTS: [&str; 6] = ["good move", "a [bracket\\] inside", "(;B[aa\\])", "ligne\nsuivante", "黒先 é", " ; "];

/// Text as players write it: any length, any script.
fn text(rng: &mut Rng) -> String {
    const SCRIPTS: [&str; 6] = [
        "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ    ",
        "0123456789 .,:;!?()'\"-+/*=#%&@_<>{}|~^$",
        "éèüößñåøçŁžİıſ",
        "黒白先番勝負棋士囲碁日本九段プロ",
        "😀🀄♟\u{1F468}\u{200D}\u{1F469}",
        "אבגدهو\u{301}\u{308}\u{a0}\u{3000}",
    ];
    let mut t = String::new();
    let len = match rng.below(4) {
        0 => rng.range(0, 3),
        1 | 2 => rng.range(4, 30),
        _ => rng.range(20, 300),
    };
    let mut pool: Vec<char> = SCRIPTS[rng.below(6)].chars().collect();
    for _ in 0..len {
        if rng.pct(12) {
            pool = SCRIPTS[rng.below(6)].chars().collect();
        }
        t.push(*rng.pick(&pool));
    }
    t
}

fn write(r: &Rec, rng: &mut Rng) -> String {
    let cfg = r.cfg;
    let w = cfg.w;
    let nl = |rng: &mut Rng| if rng.pct(30) { "\n" } else { "" };
    let mut props: Vec<String> = vec![];
    let sz = if cfg.h == cfg.w && rng.pct(70) { format!("SZ[{}]", cfg.h) } else { format!("SZ[{}:{}]", cfg.w, cfg.h) };
    if !(cfg.h == 19 && cfg.w == 19 && rng.pct(30)) {
        props.push(sz);
    }
    props.push(format!("RU[{}]", if cfg.builtin == 1 { "Japanese" } else { "Chinese" }));
    if r.komi4 != cfg.base_komi() || rng.pct(60) {
        props.push(format!("KM[{}]", quarters(r.komi4 as i64)));
    }
    for p in ["GM[1]", "FF[4]", "CA[UTF-8]", "AP[sim:1]", "DT[2020-01-01]", "ST[2]", "TM[3600]", "OT[3x30 byo-yomi]", "GN[x]", "EV[cup]", "US[scribe]"] {
        if rng.pct(30) {
            props.push(p.into());
        }
    }
    if rng.pct(40) {
        props.push(format!("PB[{}]", rng.pick(&NAMES)));
        props.push(format!("WR[{}]", "3 dan"));
    }
    if rng.pct(25) {
        props.push(format!("C[{}]", rng.pick(&COMMENTS)));
    }
    if rng.pct(35) {
        // names and notes
        for p in ["PB", "PW", "BR", "WR", "BT", "WT", "GN", "EV", "RO", "PC", "DT", "GC", "SO", "US", "AN", "CP", "ON", "AP"] {
            if rng.pct(30) && !props.iter().any(|x| x.starts_with(&format!("{}[", p))) {
                props.push(format!("{}[{}]", p, text(rng)));
            }
        }
    }
    if let Some(e) = r.result {
        props.push(format!("RE[{}]", result(e, rng)));
    } else if rng.pct(15) {
        props.push("RE[Void]".to_string());
    }
    if r.pl != 0 {
        props.push(format!("PL[{}]", if r.pl == 1 { "B" } else { "W" }));
    }
    if r.handicap_prop {
        props.push(format!("HA[{}]", cfg.handicap.len()));
    }
    // setup stones, each point on its own, in one or several property values
    for c in [1u8, 2] {
        let mut pts: Vec<usize> = cfg.setup.iter().filter(|s| s.1 == c).map(|s| s.0).collect();
        if c == 1 {
            pts.extend(&cfg.handicap);
        }
        if !pts.is_empty() {
            let mut s = if c == 1 { "AB".to_string() } else { "AW".to_string() };
            for p in pts {
                s += &format!("[{}]", pt(w, p));
                if rng.pct(5) {
                    s += "\n";
                }
            }
            props.push(s);
        }
    }
    if rng.pct(70) {
        for i in (1..props.len()).rev() {
            props.swap(i, rng.below(i + 1));
        }
    }
    if !r.handicap_prop && cfg.handicap.is_empty() {
        // records of even games say so now and then
        let e = mix(cfg.entropy ^ 0x4841);
        if e % 8 == 0 {
            props.insert((e >> 8) as usize % (props.len() + 1), "HA[0]".into());
        }
    }
    let node = |m: (u8, Option<usize>), rng: &mut Rng| -> String {
        let v = match m.1 {
            Some(p) => pt(w, p),
            None => if rng.pct(50) { "tt".into() } else { String::new() },
        };
        let c = if m.0 == 1 { "B" } else { "W" };
        let mut ps = vec![format!("{}[{}]", c, v)];
        if rng.pct(15) {
            ps.push(format!("{}L[{}]", c, rng.below(3000)));
        }
        if rng.pct(12) {
            let t = if rng.pct(70) { rng.pick(&COMMENTS).to_string() } else { text(rng) };
            ps.push(format!("C[{}]", t));
        }
        if rng.pct(3) {
            ps.push(format!("{}[{}]", rng.pick(&["GB", "GW", "DM", "UC", "TE", "BM", "HO"]), 1 + rng.below(2)));
        }
        if rng.pct(2) {
            ps.push(format!("V[{}]", quarters(rng.below(200) as i64 - 100)));
        }
        if rng.pct(3) {
            ps.push(format!("{}[{}]", rng.pick(&["OB", "OW"]), rng.below(40)));
        }
        if rng.pct(3) {
            let (p, q) = (pt(w, rng.below(cfg.n())), pt(w, rng.below(cfg.n())));
            ps.push(format!("{}[{}:{}]", rng.pick(&["AR", "LN"]), p, q));
        }
        if rng.pct(3) {
            let k = *rng.pick(&["TB", "TW", "MA", "SL", "DD"]);
            let mut v = k.to_string();
            for _ in 0..rng.range(1, 4) {
                v += &format!("[{}]", pt(w, rng.below(cfg.n())));
            }
            ps.push(v);
        }
        if rng.pct(5) {
            ps.push(format!("MN[{}]", rng.below(300)));
        }
        if rng.pct(5) {
            let p = pt(w, rng.below(cfg.n()));
            ps.push(match rng.below(6) {
                0 => format!("TR[{}]", p),
                1 => format!("SQ[{}]", p),
                2 => format!("LB[{}:{}]", p, "a"),
                3 => format!("N[{}]", text(rng)),
                4 => format!("CR[{}]", p),
                _ => "KO[]".into(),
            });
        }
        if rng.pct(50) {
            for i in (1..ps.len()).rev() {
                ps.swap(i, rng.below(i + 1));
            }
        }
        format!(";{}", ps.concat())
    };
    let mut out = String::new();
    if rng.pct(15) {
        out += "\n";
    }
    out += "(;";
    for p in &props {
        out += p;
        out += nl(rng);
    }
    let mut open = 1;
    let mut tails: Vec<String> = vec![];
    let variations = rng.pct(30);
    let empty_nodes = rng.pct(15);
    let root_move = cfg.setup.is_empty() && cfg.handicap.is_empty() && rng.pct(10);
    for (i, &m) in r.moves.iter().enumerate() {
        let n = node(m, rng);
        if i == 0 && root_move {
            out += &n[1..];
        } else {
            if empty_nodes && rng.pct(15) {
                out += ";C[pause]";
            }
            if variations && open < 12 && rng.pct(8) {
                // the main line goes on in the first subtree
                out += "(";
                open += 1;
                let mut t = String::from("(");
                for k in 0..rng.range(1, 3) {
                    t += &node((1 + ((m.0 as usize + k) % 2) as u8, if rng.pct(80) { Some(rng.below(cfg.n())) } else { None }), rng);
                }
                t += ")";
                tails.push(t);
            }
            out += &n;
        }
        out += nl(rng);
    }
    while open > 1 {
        out += ")";
        out += &tails.pop().unwrap_or_default();
        open -= 1;
    }
    out += ")";
    out += nl(rng);
    let e = mix(cfg.entropy ^ 0x5753);
    if e % 5 == 0 {
        spaced(&out, &mut Rng::new(e))
    } else {
        out
    }
}

/// The same record with other white space between its parts.
fn spaced(text: &str, r: &mut Rng) -> String {
    let often = *r.pick(&[3, 10, 40]);
    let kinds: &[&str] = *r.pick(&[&["\r\n"][..], &["\r"], &[" "], &[" ", "\n", "\r\n", "   ", "\n\n", "\r"]]);
    let mut out = String::with_capacity(text.len() * 2);
    let (mut inside, mut escaped) = (false, false);
    for c in text.chars() {
        if inside {
            out.push(c);
            inside = escaped || c != ']';
            escaped = c == '\\' && !escaped;
            continue;
        }
        if matches!(c, '[' | ')' | ';' | '(') && r.pct(often) && !(c == '(' && out.is_empty()) {
            out += *r.pick(kinds);
        }
        if c == '\n' {
            out += *r.pick(kinds);
        } else {
            out.push(c);
        }
        inside = c == '[';
        escaped = false;
    }
    out
}

fn short(s: &str) -> String {
    let mut t: String = s.chars().take(300).collect();
    if t.len() < s.len() {
        t += "...";
    }
    t.replace('\n', "\\n")
}

/// The record of the host's game so far; None where SGF cannot express it.
fn live_record<'a>(cfg: &'a Cfg, log: &[Entry], host: &Party, rng: &mut Rng) -> (Rec<'a>, bool) {
    let mut moves = vec![];
    let mut trailing_resume = false;
    for e in log {
        match *e {
            Entry::Play(c, p) => {
                moves.push((c, Some(p)));
                trailing_resume = false;
            }
            Entry::Pass(c) => {
                moves.push((c, None));
                trailing_resume = false;
            }
            Entry::Resume => trailing_resume = true,
            _ => {}
        }
    }
    let recorded = host.t.outcome.or(given_outcome(cfg.outcome));
    let handicap_prop = !cfg.handicap.is_empty() && (cfg.turn == 0 || rng.pct(50));
    let default_turn = if handicap_prop { 2 } else { 1 };
    let need_pl = cfg.start_turn() != default_turn && moves.is_empty();
    let pl = if need_pl || rng.pct(40) { cfg.start_turn() } else { 0 };
    (Rec { cfg, komi4: host.t.rules.komi4, moves, result: recorded, pl, handicap_prop }, trailing_resume)
}

/// C06: the game is saved, the host restarts and imports the record.
pub fn save_load(cx: &mut Cx, cfg: &Cfg, log: &[Entry], host: &Party, e: Ev) -> R {
    if !cx.on(6) || cfg.builtin == 0 {
        return Ok(());
    }
    let mut rng = Rng::new(e.b as u64 ^ 0x5347_4600);
    if e.a % 4 == 0 {
        return foreign(cx, cfg, &mut rng);
    }
    let (mut rec, trailing_resume) = live_record(cfg, log, host, &mut rng);
    // a game settled by score is recorded with its result now and then
    let settled = host.t.outcome.is_none() && host.t.paused() && rng.pct(60);
    if settled {
        rec.result = host.t.expected_outcome();
    }
    let text = write(&rec, &mut rng);
    cx.n("records_saved");
    if !rec.moves.is_empty() {
        cx.hot += 1;
    }
    cx.add("record_bytes", text.len() as u64);
    let g = match pan(guard(|| Game::from_sgf(&text)), || "import of an intact record")? {
        Ok(g) => g,
        Err(x) => return viol(format!("intact record refused with '{}': {}", x, short(&text))),
    };
    let mut restored = g;
    if trailing_resume {
        restored.resume();
    }
    let mut live = host.g.clone();
    let (a, b) = (pan(guard(|| obs(&restored, 2)), || "observe restored")?, pan(guard(|| obs(&live, 2)), || "observe")?);
    if a != b {
        return viol(format!("restored and live game differ: {}; record {}", diff(&a, &b), short(&text)));
    }
    cx.n("records_restored");
    // continuation
    let w = cfg.w;
    let mut t = host.t.clone();
    for k in 0..rng.below(9) {
        let ev = Ev { k: REQ, a: rng.below(64) as u32, b: rng.u32() >> 1, c: 0 };
        let mut req = if rng.pct(12) && !settled { Req::Resume } else { choose_on(cfg, &t.board, t.turn, &t, &[], ev) };
        if matches!(req, Req::Resign(_)) && t.outcome.is_some() {
            req = Req::Pass;
        }
        let ra = pan(guard(|| apply_plain(&mut restored, w, req)), || "continuation of the restored game")?;
        let rb = pan(guard(|| apply_plain(&mut live, w, req)), || "continuation")?;
        if ra != rb {
            return viol(format!("restored game answers {} to {:?}, the live one {}; record {}", ra, req, rb, short(&text)));
        }
        if ra {
            match req {
                Req::Play(p) => {
                    let ef = t.effect(p);
                    let after = pan(guard(|| cells(live.goban())), || "read board")?;
                    t.played(p, &ef, after);
                }
                Req::Pass => t.passed(),
                Req::Resume => t.passes = 0,
                Req::Resign(c) => t.outcome = Some(End::Resign(c)),
                _ => {}
            }
        }
        let lvl = 1 + (k % 2) as u8;
        let (a, b) = (pan(guard(|| obs(&restored, lvl)), || "observe restored")?, pan(guard(|| obs(&live, lvl)), || "observe")?);
        if a != b {
            return viol(format!("restored and live game drift apart after {:?}: {}; record {}", req, diff(&a, &b), short(&text)));
        }
        cx.n("restored_continuation_steps");
    }
    Ok(())
}

/// C06: a record from elsewhere (colours need not alternate), judged by the model alone.
fn foreign(cx: &mut Cx, cfg: &Cfg, rng: &mut Rng) -> R {
    let mut t = cfg.start_track();
    if cfg.outcome != 0 {
        t.outcome = given_outcome(cfg.outcome);
    }
    t.rules.komi4 = rng.range(0, 60) as i32 - 10;
    let n = cfg.n();
    let mut moves = vec![];
    let alternate = rng.pct(50);
    let mut turn = t.turn;
    for _ in 0..rng.below((n * 2).min(70)) {
        let c = if alternate { turn } else { 1 + rng.below(2) as u8 };
        t.turn = c;
        if rng.pct(12) {
            if t.passes >= 2 {
                t.passes = 0;
            }
            t.passed();
            moves.push((c, None));
        } else {
            let v: Vec<usize> = (0..n).filter(|&p| t.board.c[p] == 0 && !t.board.play(p, c, true).suicide).collect();
            if v.is_empty() {
                t.turn = turn;
                continue;
            }
            let p = *rng.pick(&v);
            let ef = t.effect(p);
            let after = ef.board.clone();
            t.played(p, &ef, after);
            moves.push((c, Some(p)));
        }
        turn = t.turn;
    }
    let result = match rng.below(7) {
        0 => Some(End::Draw),
        1 => Some(End::Resign(1 + rng.below(2) as u8)),
        2 => Some(End::Time(1 + rng.below(2) as u8)),
        3 => Some(End::Forfeit(1 + rng.below(2) as u8)),
        4 => Some(End::Score(1 + rng.below(2) as u8, rng.range(1, 900) as i64)),
        _ => None,
    };
    t.outcome = result;
    let handicap_prop = !cfg.handicap.is_empty() && rng.pct(60);
    let default_turn = if handicap_prop { 2 } else { 1 };
    let pl = if rng.pct(50) { cfg.start_turn() } else { 0 };
    if moves.is_empty() {
        t.turn = if pl != 0 { pl } else { default_turn };
    }
    let rec = Rec { cfg, komi4: t.rules.komi4, moves, result, pl, handicap_prop };
    let text = write(&rec, rng);
    cx.n("foreign_records");
    if !rec.moves.is_empty() {
        cx.hot += 1;
    }
    let g = match pan(guard(|| Game::from_sgf(&text)), || "import of an intact record")? {
        Ok(g) => g,
        Err(x) => return viol(format!("intact record refused with '{}': {}", x, short(&text))),
    };
    let b = pan(guard(|| cells(g.goban())), || "read board")?;
    let komi = (g.komi() * 4.0).round() as i32;
    let out = end(pan(guard(|| g.outcome()), || "outcome")?);
    let sc = pan(guard(|| g.calculate_score()), || "score")?;
    let es = t.score4(t.rules.sflags);
    let got = format!(
        "board={} turn={} pris={:?} over={} komi={} outcome={:?} score={:?} kos={:?}",
        b.draw(),
        uncol(g.turn()),
        g.prisoners(),
        g.is_over(),
        komi,
        out,
        ((sc.0 * 4.0) as i64, (sc.1 * 4.0) as i64),
        pan(guard(|| sorted_idx(cfg.w, g.legals_by(flags(KO)))), || "legals")?,
    );
    let want = format!(
        "board={} turn={} pris={:?} over={} komi={} outcome={:?} score={:?} kos={:?}",
        t.board.draw(),
        t.turn,
        t.pris,
        t.is_over(),
        t.rules.komi4,
        t.expected_outcome(),
        es,
        if t.last.is_some() { t.legal(KO) } else { (0..n).filter(|&p| t.board.c[p] == 0).collect() },
    );
    if got != want {
        return viol(format!("imported game and recorded game differ: {}; record {}", diff(&got, &want), short(&text)));
    }
    if g.size() != (cfg.h as u8, cfg.w as u8) {
        return viol(format!("imported size {:?}", g.size()));
    }
    // every earlier position, in order
    let hist: Vec<Board> = pan(guard(|| g.history().map(cells).collect()), || "history")?;
    let e: Vec<Board> = t.distinct.iter().map(|&i| t.plays_from[i].clone()).collect();
    if hist != e {
        return viol(format!("imported game has other earlier positions; record {}", short(&text)));
    }
    Ok(())
}

/// Panics of the parser dependency that are recorded as known findings: (id, record, text that
/// the panic message contains).
pub const KNOWN_PANICS: [(&str, &str, &str); 2] = [
    ("sgf-parser/label-multibyte", "(;LB[a\u{e9}:x])", "char boundary"),
    ("sgf-parser/coordinate-underflow", "(;B[!!])", "subtract with overflow"),
];

/// Whether the import failed inside the parser dependency in one of the ways that the committed
/// list of findings names: the parser, called on its own with the same bytes, has to fail with
/// the same message at the same place.
pub fn known_finding(text: &str, p: &Panicked) -> Option<&'static str> {
    let listed = std::env::var("SIM_KNOWN").unwrap_or_default();
    let k = KNOWN_PANICS.iter().find(|k| p.msg.contains(k.2))?;
    if !listed.split(',').any(|l| l == k.0) {
        return None;
    }
    // leading blanks are not for the parser to skip
    match guard(|| sgf_parser::parse(text.trim_start()).is_ok()) {
        Err(q) if q.msg == p.msg && q.loc == p.loc => Some(k.0),
        _ => None,
    }
}

const HOSTILE: [&str; 44] = [
    "", " ", "-1", "0", "-0", "+", "-", "nan", "-inf", "1e39", "1e-50", "99999999999", "4294967296", "256", "255", "20", "19:20", "0:0", "1:1", "19:0", "300:5", ":", "9:", ":9",
    "B+", "W+-2.5", "B+nan", "B+-0", "W+inf", "B+1e39", "B+R", "Draw", "?", "Void", "B", "W", "b", "tt", "zz", "a", "aaa", "\u{e9}\u{e9}", "\\", "aa:cc",
];

/// Storage faults on the bytes of a record.
fn damage(cx: &mut Cx, bytes: &mut Vec<u8>, other: &[u8], rng: &mut Rng) {
    let sector = *rng.pick(&[4usize, 8, 16, 64, 512]);
    let n = bytes.len();
    if n == 0 {
        return;
    }
    match rng.below(13) {
        11 | 12 => {
            // a whole value overwritten
            let v: Vec<usize> = (0..n).filter(|&i| bytes[i] == b'[' && (i == 0 || bytes[i - 1] != b'\\')).collect();
            if !v.is_empty() {
                let i = *rng.pick(&v) + 1;
                let mut j = i;
                while j < n && bytes[j] != b']' {
                    j += 1;
                }
                let mut new: Vec<u8> = rng.pick(&HOSTILE).as_bytes().to_vec();
                if rng.pct(25) {
                    // only from some place on
                    let k = i + rng.below(j - i + 1);
                    let mut x = bytes[i..k].to_vec();
                    x.extend(new);
                    new = x;
                }
                bytes.splice(i..j, new);
            }
            cx.n("fault_overwritten_value");
        }
        0 => {
            bytes.truncate(rng.below(n));
            cx.n("fault_truncated_record");
        }
        1 => {
            let a = rng.below(n);
            let b = (a + sector).min(n);
            bytes[a..b].fill(if rng.pct(50) { 0 } else { b' ' });
            cx.n("fault_zeroed_block");
        }
        2 => {
            for _ in 0..rng.range(1, 3) {
                let i = rng.below(n);
                bytes[i] ^= 1 << rng.below(8);
            }
            cx.n("fault_bit_flip");
        }
        3 => {
            // overwritten with a byte that means something
            let i = rng.below(n);
            bytes[i] = *rng.pick(b"()[];:\\BWaAtsz019-+");
            cx.n("fault_byte_overwritten");
        }
        4 => {
            let i = rng.below(n);
            bytes[i] = rng.u32() as u8;
            cx.n("fault_byte_overwritten");
        }
        5 => {
            let a = rng.below(n) / sector * sector;
            let b = (a + sector).min(n);
            let s = bytes[a..b].to_vec();
            let at = rng.below(n) / sector * sector;
            for (i, x) in s.into_iter().enumerate() {
                if at + i < bytes.len() {
                    bytes[at + i] = x;
                }
            }
            cx.n("fault_misplaced_sector");
        }
        6 => {
            let k = n / sector;
            if k >= 2 {
                let (a, b) = (rng.below(k) * sector, rng.below(k) * sector);
                for i in 0..sector {
                    bytes.swap(a + i, b + i);
                }
            }
            cx.n("fault_swapped_sectors");
        }
        7 => {
            // lost write: the rest still is what an older record had there
            let cut = rng.below(n);
            bytes.truncate(cut);
            if other.len() > cut {
                bytes.extend(&other[cut..]);
            }
            cx.n("fault_stale_tail");
        }
        8 => {
            let a = rng.below(n);
            let b = (a + rng.range(1, sector)).min(n);
            bytes.drain(a..b);
            cx.n("fault_lost_bytes");
        }
        9 => {
            let a = rng.below(n);
            let b = (a + rng.range(1, sector)).min(n);
            let s = bytes[a..b].to_vec();
            let at = rng.below(n);
            for (i, x) in s.into_iter().enumerate() {
                bytes.insert(at + i, x);
            }
            cx.n("fault_duplicated_bytes");
        }
        _ => {
            // a value damaged where numbers and points stand
            let v: Vec<usize> = (0..n).filter(|&i| bytes[i] == b'[' && i + 1 < n).collect();
            if !v.is_empty() {
                let i = *rng.pick(&v) + 1;
                bytes[i] = *rng.pick(b"0123456789abcdefghijklmnopqrstuvwxyzABCZ{|}~\x7f\x80\xff-.");
                if rng.pct(40) && i + 1 < n {
                    bytes[i + 1] = *rng.pick(b"0123456789abcdefghijklmnopqrstuvwxyzABCZ{|}~-.]");
                }
            }
            cx.n("fault_damaged_value");
        }
    }
}

/// C07
pub fn damage_load(cx: &mut Cx, cfg: &Cfg, log: &[Entry], host: &Party, e: Ev) -> R {
    if !cx.on(7) || cfg.builtin == 0 {
        return Ok(());
    }
    let mut rng = Rng::new(e.b as u64 ^ 0xDA3A_6E00);
    let (rec, _) = live_record(cfg, log, host, &mut rng);
    let text = write(&rec, &mut rng);
    let older = {
        let k = log.len() / 2;
        let (r, _) = live_record(cfg, &log[..k], host, &mut rng);
        write(&r, &mut rng)
    };
    let mut bytes = text.into_bytes();
    for _ in 0..*rng.pick(&[1usize, 1, 1, 2, 2, 3, 5, 8]) {
        damage(cx, &mut bytes, older.as_bytes(), &mut rng);
    }
    let text = String::from_utf8_lossy(&bytes).into_owned();
    judge_import(cx, &text, &mut rng)
}

/// The import of any text must end in an error or in a well-formed, usable game.
pub fn judge_import(cx: &mut Cx, text: &str, rng: &mut Rng) -> R {
    cx.n("damaged_records");
    let g = match guard(|| Game::from_sgf(text)) {
        Err(p) => {
            if let Some(k) = known_finding(text, &p) {
                *cx.known.entry(k.to_string()).or_insert(0) += 1;
                return Ok(());
            }
            return viol(format!("import failed: {}; record {}", p, short(text)));
        }
        Ok(Err(_)) => {
            cx.n("damaged_refused");
            cx.hot += 1;
            return Ok(());
        }
        Ok(Ok(g)) => g,
    };
    cx.n("damaged_accepted");
    cx.hot += 1;
    let at = |v: Viol| Viol { detail: format!("{}; imported from damaged record {}", v.detail, short(text)) };
    well_formed(cx, g, rng).map_err(at)
}

fn well_formed(cx: &mut Cx, mut g: Game, rng: &mut Rng) -> R {
    let (h, w) = g.size();
    if !(1..=19).contains(&h) || !(1..=19).contains(&w) {
        return viol(format!("size {:?}", (h, w)));
    }
    let b = pan(guard(|| cells(g.goban())), || "read board")?;
    check_groups(cx, g.goban(), &b, uncol(g.turn()), Some(&g))?;
    check_views(cx, &g, &b)?;
    pan(guard(|| obs(&g, if b.n() > 150 { 1 } else { 2 })), || "observe")?;
    // usable
    pan(guard(|| g.resume()), || "resume")?;
    for k in 0..6 {
        let m = if k == 3 {
            Move::Pass
        } else {
            let v: Vec<_> = pan(guard(|| g.legals().collect()), || "legals")?;
            if v.is_empty() {
                Move::Pass
            } else {
                let c: (u8, u8) = *rng.pick(&v);
                Move::Play(c.0, c.1)
            }
        };
        if g.is_over() && g.outcome().is_none() {
            return viol("over without outcome");
        }
        pan(
            guard(|| {
                let _ = g.try_play(m);
            }),
            || "play on the imported game",
        )?;
    }
    let b = pan(guard(|| cells(g.goban())), || "read board")?;
    if !b.has_dead() {
        check_groups(cx, g.goban(), &b, uncol(g.turn()), Some(&g))?;
    }
    pan(guard(|| (g.calculate_score(), g.outcome())), || "score")?;
    Ok(())
}
