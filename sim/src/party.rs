//! One real game together with the model that judges each of its steps.

use crate::cx::*;
use crate::model::*;
use crate::sut::*;
use goban::pieces::stones::{Point, Stone};
use goban::rules::game::Game;
use goban::rules::{Move, PlayError};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Req {
    Play(usize),
    Pass,
    Resign(u8),
    Resume,
    Komi(i32),
    Off(u8, u8),
}

/// The path through the public API a host takes to apply a play.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    Try,
    CheckThenPlay,
    LegalsThenPlay,
}

#[derive(Clone)]
pub struct Party {
    pub g: Game,
    pub t: Track,
    /// C03: a game that only ever sees the accepted requests.
    pub twin: Option<Game>,
    /// C05/C06: the game this one has to equal from now on (lost, or live).
    pub ghost: Option<Game>,
    pub ops: usize,
    pub check_every: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Res {
    Ok,
    Err(PlayError),
    Refused,
}

impl Party {
    pub fn new(g: Game, t: Track, check_every: usize) -> Self {
        Party { g, t, twin: None, ghost: None, ops: 0, check_every }
    }

    fn eye(&self, p: usize) -> bool {
        self.g.check_eye(Stone { coord: coord(self.t.board.w, p), color: self.g.turn() })
    }

    fn do_play(g: &mut Game, m: Move, c: (u8, u8), how: How, paused: bool) -> Res {
        match how {
            How::Try => match g.try_play(m) {
                Ok(_) => Res::Ok,
                Err(e) => Res::Err(e),
            },
            How::CheckThenPlay => {
                if paused {
                    return Res::Err(PlayError::GamePaused);
                }
                match g.check_point(c) {
                    Some(e) => Res::Err(e),
                    None => {
                        g.play(m);
                        Res::Ok
                    }
                }
            }
            How::LegalsThenPlay => {
                if paused {
                    return Res::Refused;
                }
                let ok = g.legals().any(|x| x == c);
                if ok {
                    g.play(m);
                    Res::Ok
                } else {
                    Res::Refused
                }
            }
        }
    }

    /// Re-reads turn and prisoners so that each step is judged on its own.
    fn resync(&mut self) {
        self.t.turn = uncol(self.g.turn());
        self.t.pris = self.g.prisoners();
    }

    /// Sends one request to the game and judges what happens. Ok(true) if it was accepted.
    pub fn request(&mut self, cx: &mut Cx, req: Req, how: How) -> R<bool> {
        self.ops += 1;
        let w = self.t.board.w;
        let before = if cx.on(3) || cx.on(14) { Some(pan(guard(|| obs(&self.g, 1)), || "observe")?) } else { None };
        let t_before_turn = self.t.turn;
        let paused = self.t.paused();
        let res;
        match req {
            Req::Play(p) => {
                let m = mv(w, p);
                let c = coord(w, p);
                let v = self.t.verdict(p);
                let flags = self.t.rules.flags;
                let eye = flags & FILLEYE != 0 && !v.occupied && pan(guard(|| self.eye(p)), || "check_eye")?;
                let forbidden = v.forbidden(flags) || eye;
                let mut preview = None;
                if cx.on(2) && !paused && !forbidden {
                    preview = Some(pan(guard(|| cells(&self.g.play_for_verification(c))), || "play_for_verification")?);
                }
                res = pan(guard(|| Self::do_play(&mut self.g, m, c, how, paused)), || "play")?;
                cx.log(|| format!("play {:?} turn={} via {:?} -> {:?}", c, t_before_turn, how, res));
                if cx.on(1) || cx.on(10) {
                    if paused && res == Res::Ok {
                        return viol(format!("play {:?} accepted although the game is paused", c));
                    }
                    if paused && how == How::Try && res != Res::Err(PlayError::GamePaused) {
                        return viol(format!("play {:?} while paused answered {:?}, not GamePaused", c, res));
                    }
                }
                if !paused {
                    match res {
                        Res::Ok => {
                            cx.n("accepted_plays");
                            if cx.on(1) && forbidden {
                                return viol(format!("accepted illegal play {:?} by {} on {}: {:?} eye={} flags={}", c, t_before_turn, self.t.board.draw(), v, eye, flags));
                            }
                            if cx.on(4) && v.repetition(flags) {
                                return viol(format!("accepted repetition {:?} by {} on {}: {:?} flags={}", c, t_before_turn, self.t.board.draw(), v, flags));
                            }
                        }
                        Res::Err(e) => {
                            cx.n("refused_plays");
                            if v.repetition(flags) && !v.suicide {
                                cx.n("refused_repetition");
                            } else if v.suicide {
                                cx.n("refused_suicide");
                            }
                            if cx.on(1) {
                                if !forbidden {
                                    return viol(format!("refused legal play {:?} by {} on {} with {:?} flags={}", c, t_before_turn, self.t.board.draw(), e, flags));
                                }
                                let apt = match e {
                                    PlayError::PointNotEmpty => v.occupied,
                                    PlayError::Suicide => flags & SUICIDE != 0 && v.suicide,
                                    PlayError::Ko => v.repetition(flags),
                                    PlayError::FillEye => eye,
                                    PlayError::GamePaused => false,
                                };
                                if !apt {
                                    return viol(format!("play {:?} by {} on {} refused with {:?}, but {:?} eye={} flags={}", c, t_before_turn, self.t.board.draw(), e, v, eye, flags));
                                }
                            }
                            if cx.on(4) && e == PlayError::Ko && !v.repetition(flags) {
                                return viol(format!("play {:?} by {} on {} refused as repetition, but {:?} flags={}", c, t_before_turn, self.t.board.draw(), v, flags));
                            }
                            if cx.on(10) && e == PlayError::GamePaused {
                                return viol(format!("play {:?} refused as paused, but the game is not paused", c));
                            }
                        }
                        Res::Refused => {
                            cx.n("refused_plays");
                            if cx.on(1) && !forbidden {
                                return viol(format!("legal play {:?} by {} on {} is not among the legal moves, flags={}", c, t_before_turn, self.t.board.draw(), flags));
                            }
                            if cx.on(4) && !forbidden && self.t.verdict_only_rep_differs(p) {
                                return viol(format!("play {:?} by {} on {} is left out of the legal moves as repetition, flags={}", c, t_before_turn, self.t.board.draw(), flags));
                            }
                        }
                    }
                }
                if res == Res::Ok {
                    let after = pan(guard(|| cells(self.g.goban())), || "read board")?;
                    if v.occupied {
                        // nothing sensible can be tracked after this
                        return viol(format!("accepted a play on an occupied point {:?} of {}", c, self.t.board.draw()));
                    }
                    let e = self.t.effect(p);
                    if e.captured.len() > 0 {
                        cx.n("captures");
                    }
                    if e.captured.len() > 1 {
                        cx.n("multi_stone_captures");
                    }
                    if e.suicide {
                        cx.n("suicides_played");
                    }
                    if cx.on(2) {
                        if after != e.board {
                            return viol(format!("play {:?} by {} on {} gives {}, the rules say {}", c, t_before_turn, self.t.board.draw(), after.draw(), e.board.draw()));
                        }
                        if let Some(pv) = preview {
                            if pv != after {
                                return viol(format!("preview of {:?} by {} on {} shows {}, the play gives {}", c, t_before_turn, self.t.board.draw(), pv.draw(), after.draw()));
                            }
                        }
                        if uncol(self.g.turn()) != 3 - t_before_turn {
                            return viol(format!("turn not passed after {:?}", c));
                        }
                        if !e.captured.is_empty() || e.suicide {
                            cx.hot += 1;
                        }
                    }
                    let pre_pris = self.t.pris;
                    self.t.played(p, &e, after);
                    if cx.on(2) && self.g.prisoners() != self.t.pris {
                        return viol(format!("prisoners {:?} after {:?} by {}, expected {:?} (before: {:?})", self.g.prisoners(), c, t_before_turn, self.t.pris, pre_pris));
                    }
                    if cx.on(4) && flags & SUPERKO != 0 && !paused && self.t.was_seen(&self.t.board) {
                        return viol(format!("superko: {:?} recreated the earlier board {}", c, self.t.board.draw()));
                    }
                    self.resync();
                }
            }
            Req::Pass | Req::Resign(_) => {
                let m = match req {
                    Req::Resign(c) => Move::Resign(col(c)),
                    _ => Move::Pass,
                };
                if matches!(req, Req::Resign(_)) && self.t.outcome.is_some() {
                    return Ok(false);
                }
                res = pan(guard(|| match self.g.try_play(m) {
                    Ok(_) => Res::Ok,
                    Err(e) => Res::Err(e),
                }), || "pass or resign")?;
                cx.log(|| format!("{:?} turn={} -> {:?}", m, t_before_turn, res));
                if cx.on(10) || cx.on(1) {
                    if paused && res != Res::Err(PlayError::GamePaused) {
                        return viol(format!("{:?} while paused answered {:?}, not GamePaused", m, res));
                    }
                    if !paused && res != Res::Ok {
                        return viol(format!("{:?} refused with {:?}", m, res));
                    }
                }
                if res == Res::Ok {
                    match req {
                        Req::Pass => {
                            self.t.passed();
                            cx.n("passes");
                            if cx.on(10) && uncol(self.g.turn()) != self.t.turn {
                                return viol("a pass did not hand over the turn");
                            }
                        }
                        Req::Resign(c) => {
                            self.t.outcome = Some(End::Resign(c));
                            cx.n("resignations");
                        }
                        _ => {}
                    }
                    if cx.on(10) {
                        let now = cells(self.g.goban());
                        if now != self.t.board || self.g.prisoners() != self.t.pris || uncol(self.g.turn()) != self.t.turn {
                            return viol(format!("{:?} changed more than the turn", m));
                        }
                    }
                    self.resync();
                }
            }
            Req::Resume => {
                pan(guard(|| self.g.resume()), || "resume")?;
                cx.log(|| "resume".into());
                if self.t.paused() {
                    cx.n("resumes_after_pause");
                }
                self.t.passes = 0;
                res = Res::Ok;
            }
            Req::Komi(k) => {
                pan(guard(|| self.g.set_komi(k as f32 / 4.0)), || "set_komi")?;
                self.t.rules.komi4 = k;
                cx.n("komi_changes");
                res = Res::Ok;
            }
            Req::Off(r, c) => {
                let m = Move::Play(r, c);
                let via_play = how != How::Try && !paused;
                let out = guard(|| {
                    if via_play {
                        self.g.play(m);
                        Res::Ok
                    } else {
                        match self.g.try_play(m) {
                            Ok(_) => Res::Ok,
                            Err(e) => Res::Err(e),
                        }
                    }
                });
                cx.log(|| format!("off-board {:?} via_play={} -> {:?}", m, via_play, out.as_ref().map_err(|p| p.to_string())));
                cx.n("offboard_requests");
                if cx.on(14) || cx.on(3) {
                    cx.hot += 1;
                    if let Ok(Res::Ok) = out {
                        return viol(format!("{:?} accepted on a {}x{} board", m, self.t.board.h, self.t.board.w));
                    }
                    let now = pan(guard(|| obs(&self.g, 1)), || "observe")?;
                    if Some(&now) != before.as_ref() {
                        return viol(format!("{:?} on a {}x{} board changed the game: {}", m, self.t.board.h, self.t.board.w, diff(before.as_ref().unwrap(), &now)));
                    }
                    cx.n(if out.is_err() { "offboard_panic_documented" } else { "offboard_err" });
                }
                if let Ok(Res::Ok) = out {
                    return viol(format!("{:?} accepted on a {}x{} board", m, self.t.board.h, self.t.board.w));
                }
                return Ok(false);
            }
        }
        let accepted = res == Res::Ok;
        if cx.on(3) {
            if !accepted {
                cx.hot += 1;
                let now = pan(guard(|| obs(&self.g, 1)), || "observe")?;
                if Some(&now) != before.as_ref() {
                    return viol(format!("refused {:?} ({:?}) changed the game: {}", req, res, diff(before.as_ref().unwrap(), &now)));
                }
            }
            if let Some(tw) = self.twin.as_mut() {
                if accepted {
                    let r = pan(guard(|| apply_plain(tw, w, req)), || "twin")?;
                    if !r {
                        return viol(format!("{:?} was accepted by the game that also saw refused requests, but refused by the one that did not", req));
                    }
                }
            }
        }
        if self.ghost.is_some() {
            self.follow_ghost(cx, req, how, accepted, paused)?;
        }
        let b = &self.t.board;
        let key = crate::rng::mix(b.hash64() ^ ((self.t.turn as u64) << 1) ^ ((self.t.passes as u64) << 3) ^ ((self.t.last.as_ref().map_or(0, |l| l.1 + 1) as u64) << 8));
        cx.states.insert(key);
        cx.digest = crate::rng::mix(cx.digest ^ key ^ accepted as u64);
        if accepted || self.ops % 4 == 0 {
            let full = self.ops % self.check_every.max(1) == 0;
            self.check(cx, full)?;
        }
        Ok(accepted)
    }

    fn follow_ghost(&mut self, cx: &mut Cx, req: Req, how: How, accepted: bool, paused: bool) -> R {
        let w = self.t.board.w;
        let mut gh = self.ghost.take().unwrap();
        let r = pan(
            guard(|| match req {
                Req::Play(p) => Self::do_play(&mut gh, mv(w, p), coord(w, p), how, paused) == Res::Ok,
                _ => apply_plain(&mut gh, w, req),
            }),
            || "continuation",
        )?;
        cx.n("continuation_steps");
        if r != accepted {
            return viol(format!("after the rebuild {:?} was {} but the lost game says {}", req, acc(accepted), acc(r)));
        }
        let lvl = if self.ops % 3 == 0 { 2 } else { 1 };
        let (a, b) = (pan(guard(|| obs(&self.g, lvl)), || "observe")?, pan(guard(|| obs(&gh, lvl)), || "observe")?);
        if a != b {
            return viol(format!("rebuilt and lost game drift apart after {:?}: {}", req, diff(&a, &b)));
        }
        self.ghost = Some(gh);
        Ok(())
    }

    /// Invariants of the focused property on the current state.
    pub fn check(&mut self, cx: &mut Cx, full: bool) -> R {
        match cx.focus {
            1 => self.check_legals(cx, full),
            2 => self.check_conservation(),
            3 => {
                if let Some(tw) = &self.twin {
                    let lvl = if full { 2 } else { 1 };
                    let (a, b) = (pan(guard(|| obs(&self.g, lvl)), || "observe")?, pan(guard(|| obs(tw, lvl)), || "observe")?);
                    if a != b {
                        return viol(format!("the game that saw refused requests differs from the one that did not: {}", diff(&a, &b)));
                    }
                }
                Ok(())
            }
            4 => self.check_repetition(cx),
            10 => self.check_protocol(cx, full),
            11 => self.check_scores(cx, full),
            12 => check_groups(cx, self.g.goban(), &self.t.board, self.t.turn, Some(&self.g)),
            13 => check_views(cx, &self.g, &self.t.board),
            17 => self.check_history(cx, full),
            18 => self.check_hypothetical(cx, full),
            _ => Ok(()),
        }
    }

    fn check_legals(&self, cx: &mut Cx, full: bool) -> R {
        if self.t.paused() {
            return Ok(());
        }
        let w = self.t.board.w;
        let own = self.t.rules.flags;
        let others = [0u8, KO, SUPERKO, SUICIDE, KO | SUICIDE, SUPERKO | SUICIDE, KO | SUPERKO | SUICIDE, FILLEYE | SUICIDE | KO];
        let mut list = vec![own];
        if full {
            list.push(others[self.ops / self.check_every.max(1) % others.len()]);
        } else if self.t.board.n() > 100 {
            return Ok(());
        }
        for (k, &f) in list.iter().enumerate() {
            let lib = pan(guard(|| if k == 0 { sorted_idx(w, self.g.legals()) } else { sorted_idx(w, self.g.legals_by(flags(f))) }), || "legals")?;
            let mut exp = self.t.legal(f);
            if f & FILLEYE != 0 {
                let mut keep = vec![];
                for p in exp {
                    let eye = match self.t.board.plain_eye(p, self.t.turn) {
                        Some(x) => x,
                        None => pan(guard(|| self.eye(p)), || "check_eye")?,
                    };
                    if !eye {
                        keep.push(p);
                    }
                }
                exp = keep;
            }
            cx.n("legal_lists_compared");
            if exp.len() < self.t.board.c.iter().filter(|&&x| x == 0).count() {
                cx.hot += 1;
            }
            if lib != exp {
                return viol(format!("legal moves under flags {} on {} for {}: {:?}, the rules say {:?}", f, self.t.board.draw(), self.t.turn, minus(&lib, &exp), minus(&exp, &lib)));
            }
        }
        Ok(())
    }

    fn check_conservation(&self) -> R {
        let (b, w) = self.t.board.count();
        let p = self.g.prisoners();
        if self.t.placed != (b + p.1, w + p.0) {
            return viol(format!("stones placed {:?}, on the board {:?}, prisoners {:?}", self.t.placed, (b, w), p));
        }
        Ok(())
    }

    fn check_repetition(&self, cx: &mut Cx) -> R {
        if self.t.paused() {
            return Ok(());
        }
        let w = self.t.board.w;
        for f in [KO, SUPERKO, KO | SUPERKO] {
            let lib = pan(guard(|| sorted_idx(w, self.g.legals_by(flags(f)))), || "legals_by")?;
            let mut exp = vec![];
            for p in 0..self.t.board.n() {
                if self.t.board.c[p] == 0 {
                    let v = self.t.verdict(p);
                    if v.repetition(f) {
                        cx.n(if f == KO { "ko_points_met" } else { "superko_points_met" });
                        cx.hot += 1;
                        if v.superko && !v.ko && self.t.plays_from.len() > 2 {
                            cx.n("superko_long_cycle");
                        }
                        if self.t.last.is_none() {
                            cx.n("repetition_after_pass");
                        }
                    } else {
                        exp.push(p);
                    }
                }
            }
            if lib != exp {
                return viol(format!("repetition under flags {} on {} for {}: wrongly allowed {:?}, wrongly refused {:?}", f, self.t.board.draw(), self.t.turn, minus(&lib, &exp), minus(&exp, &lib)));
            }
        }
        Ok(())
    }

    fn check_protocol(&self, cx: &mut Cx, full: bool) -> R {
        let over = pan(guard(|| self.g.is_over()), || "is_over")?;
        if over != self.t.is_over() {
            return viol(format!("is_over is {} after {} consecutive passes, outcome set: {:?}", over, self.t.passes, self.t.outcome));
        }
        let out = pan(guard(|| self.g.outcome()), || "outcome")?;
        if out.is_some() != over {
            return viol(format!("is_over {} but outcome {:?}", over, out));
        }
        if self.t.outcome.is_some() && end(out) != self.t.outcome {
            return viol(format!("outcome {:?}, recorded {:?}", out, self.t.outcome));
        }
        self.check_winner(out)?;
        if self.t.paused() && full {
            cx.hot += 1;
            cx.n("pauses_probed");
            let mut probes = vec![Move::Pass, Move::Resign(col(1)), Move::Resign(col(2))];
            let n = self.t.board.n();
            for k in 0..6 {
                probes.push(mv(self.t.board.w, (self.ops * 7 + k * 5) % n));
            }
            let o = pan(guard(|| obs(&self.g, 1)), || "observe")?;
            let mut c = self.g.clone();
            for m in probes {
                let r = pan(guard(|| c.try_play(m).map(|_| ()).err()), || "request while paused")?;
                if r != Some(PlayError::GamePaused) {
                    return viol(format!("{:?} while paused answered {:?}", m, r));
                }
            }
            let o2 = pan(guard(|| obs(&c, 1)), || "observe")?;
            if o != o2 {
                return viol(format!("requests while paused changed the game: {}", diff(&o, &o2)));
            }
            // a third pass is refused with the documented panic
            if guard(|| { c.play(Move::Pass); }).is_ok() {
                return viol("a third pass was played");
            }
            let o2 = pan(guard(|| obs(&c, 1)), || "observe")?;
            if o != o2 {
                return viol(format!("a pass while paused changed the game: {}", diff(&o, &o2)));
            }
            // a player who resigns while the stones are counted
            if self.t.outcome.is_none() {
                let k = 1 + (self.ops % 2) as u8;
                pan(guard(|| { c.play(Move::Resign(col(k))); }), || "resignation while paused")?;
                let out = end(pan(guard(|| c.outcome()), || "outcome")?);
                if out != Some(End::Resign(k)) {
                    return viol(format!("outcome {:?} after {} resigned while paused", out, k));
                }
                c.resume();
                if !c.is_over() || end(c.outcome()) != out || cells(c.goban()) != self.t.board {
                    return viol(format!("resumed after the resignation of {}: outcome {:?}", k, c.outcome()));
                }
                cx.n("resignations_while_paused");
            }
        }
        Ok(())
    }

    /// The winner that an outcome names is the one it holds.
    fn check_winner(&self, out: Option<goban::rules::EndGame>) -> R {
        if let Some(o) = out {
            let w = pan(guard(|| o.get_winner()), || "get_winner")?.map(uncol);
            let e = match end(out).unwrap() {
                End::Score(c, _) | End::Resign(c) | End::Time(c) | End::Forfeit(c) => Some(c),
                End::Draw => None,
            };
            if w != e {
                return viol(format!("get_winner of {:?} is {:?}", o, w));
            }
        }
        Ok(())
    }

    fn check_scores(&self, cx: &mut Cx, full: bool) -> R {
        let b = &self.t.board;
        if !full && b.n() > 100 {
            return Ok(());
        }
        let w = b.w;
        let g = &self.g;
        let mut t = self.t.clone_light();
        t.pris = g.prisoners();
        let (eb, ew) = b.territories();
        if !eb.is_empty() && !ew.is_empty() {
            cx.hot += 1;
        }
        let (tb, tw) = pan(
            guard(|| {
                let (x, y) = g.get_territories();
                let f = |v: Vec<Point>| {
                    let mut r: Vec<usize> = v.iter().map(|p| idx(w, p.coord)).collect();
                    r.sort_unstable();
                    r
                };
                (f(x.collect()), f(y.collect()))
            }),
            || "get_territories",
        )?;
        if tb != eb || tw != ew {
            return viol(format!("territories of {}: black {:?} white {:?}, expected {:?} {:?}", b.draw(), tb, tw, eb, ew));
        }
        let ct = pan(guard(|| g.calculate_territories()), || "calculate_territories")?;
        if ct != (eb.len(), ew.len()) {
            return viol(format!("calculate_territories {:?} on {}, expected {:?}", ct, b.draw(), (eb.len(), ew.len())));
        }
        let ns = pan(guard(|| g.number_of_stones()), || "number_of_stones")?;
        if ns != b.count() {
            return viol(format!("number_of_stones {:?} on {}, expected {:?}", ns, b.draw(), b.count()));
        }
        if (g.komi() * 4.0) as i32 != t.rules.komi4 {
            return viol(format!("komi {:?}, expected {}/4", g.komi(), t.rules.komi4));
        }
        for f in 0..8u8 {
            let s = pan(guard(|| g.calculate_score_by(sflags(f))), || "calculate_score_by")?;
            let e = t.score4(f);
            if ((s.0 * 4.0) as f64, (s.1 * 4.0) as f64) != (e.0 as f64, e.1 as f64) {
                return viol(format!("score {:?} under flags {} on {} prisoners {:?}, expected {:?} quarters", s, f, b.draw(), t.pris, e));
            }
        }
        let s = pan(guard(|| g.calculate_score()), || "calculate_score")?;
        let e = t.score4(t.rules.sflags);
        if ((s.0 * 4.0) as f64, (s.1 * 4.0) as f64) != (e.0 as f64, e.1 as f64) {
            return viol(format!("score {:?} on {} prisoners {:?}, the rule says {:?} quarters", s, b.draw(), t.pris, e));
        }
        if self.t.paused() && self.t.outcome.is_none() {
            cx.n("settled_by_score");
            let o = pan(guard(|| g.outcome()), || "outcome")?;
            let e = t.expected_outcome();
            if e == Some(End::Draw) {
                cx.n("draws");
            }
            if end(o) != e {
                return viol(format!("outcome {:?} on {}, expected {:?}", o, b.draw(), e));
            }
            self.check_winner(o)?;
            if let Some(goban::rules::EndGame::WinnerByScore(_, d)) = o {
                if (d * 4.0).fract() != 0.0 {
                    return viol(format!("outcome {:?} is not the exact difference", o));
                }
            }
        }
        Ok(())
    }

    fn check_history(&self, cx: &mut Cx, full: bool) -> R {
        if !full && self.t.distinct.len() > 12 {
            return Ok(());
        }
        let h: Vec<Board> = pan(guard(|| self.g.history().map(cells).collect()), || "history")?;
        let e: Vec<&Board> = self.t.distinct.iter().map(|&i| &self.t.plays_from[i]).collect();
        if self.t.distinct.len() < self.t.plays_from.len() {
            cx.n("histories_with_repeats");
            cx.hot += 1;
        }
        if h.len() != e.len() || h.iter().zip(&e).any(|(a, b)| a != *b) {
            let k = h.iter().zip(&e).position(|(a, b)| a != *b).unwrap_or(h.len().min(e.len()));
            return viol(format!(
                "history lists {} positions, {} distinct were played from; first difference at {}: {} / {}",
                h.len(),
                e.len(),
                k,
                h.get(k).map_or("-".into(), |b| b.draw()),
                e.get(k).map_or("-".into(), |b| b.draw())
            ));
        }
        cx.n("histories_compared");
        Ok(())
    }

    fn check_hypothetical(&self, cx: &mut Cx, full: bool) -> R {
        if self.t.paused() || (!full && self.t.board.n() > 50) {
            return Ok(());
        }
        let b = &self.t.board;
        let w = b.w;
        let g = &self.g;
        let mut eyes = vec![];
        for p in 0..b.n() {
            for c in [1u8, 2] {
                let s = Stone { coord: coord(w, p), color: col(c) };
                let e = pan(guard(|| g.check_eye(s)), || "check_eye")?;
                match b.plain_eye(p, c) {
                    Some(x) if x != e => {
                        return viol(format!("{:?} {} an eye of {} on {}", coord(w, p), if e { "called" } else { "not called" }, c, b.draw()));
                    }
                    Some(true) => cx.n("plain_eyes"),
                    None if e => cx.n("doubtful_eyes"),
                    _ => {}
                }
                if e && c == self.t.turn {
                    eyes.push(p);
                }
                if b.c[p] == 0 {
                    let su = pan(guard(|| g.check_suicide(s)), || "check_suicide")?;
                    if su != b.play(p, c, true).suicide {
                        return viol(format!("check_suicide({:?}, {}) is {} on {}", coord(w, p), c, su, b.draw()));
                    }
                }
            }
        }
        let v: Vec<Verdict> = (0..b.n()).map(|p| self.t.verdict(p)).collect();
        for f in 0..16u8 {
            let lib = pan(guard(|| sorted_idx(w, g.legals_by(flags(f)))), || "legals_by")?;
            let exp: Vec<usize> =
                (0..b.n()).filter(|&p| !v[p].forbidden(f) && !(f & FILLEYE != 0 && eyes.contains(&p))).collect();
            if lib != exp {
                return viol(format!("legal moves under hypothetical flags {} (own {}) on {} for {}: wrongly allowed {:?}, wrongly refused {:?}", f, self.t.rules.flags, b.draw(), self.t.turn, minus(&lib, &exp), minus(&exp, &lib)));
            }
            cx.n("hypothetical_lists");
            if f != self.t.rules.flags && exp.len() < b.c.iter().filter(|&&x| x == 0).count() {
                cx.hot += 1;
            }
        }
        let p = (self.ops * 11) % b.n();
        let f = (self.ops % 16) as u8;
        let r = pan(guard(|| g.check_point_by(coord(w, p), flags(f))), || "check_point_by")?;
        let apt = match r {
            None => !v[p].forbidden(f) && !(f & FILLEYE != 0 && eyes.contains(&p)),
            Some(PlayError::PointNotEmpty) => v[p].occupied,
            Some(PlayError::Suicide) => f & SUICIDE != 0 && v[p].suicide,
            Some(PlayError::Ko) => v[p].repetition(f),
            Some(PlayError::FillEye) => f & FILLEYE != 0 && eyes.contains(&p),
            Some(PlayError::GamePaused) => false,
        };
        if !apt {
            return viol(format!("check_point_by({:?}, flags {}) on {} for {} answers {:?}", coord(w, p), f, b.draw(), self.t.turn, r));
        }
        Ok(())
    }
}

fn acc(b: bool) -> &'static str {
    if b {
        "accepted"
    } else {
        "refused"
    }
}

pub fn minus(a: &[usize], b: &[usize]) -> Vec<usize> {
    a.iter().copied().filter(|x| !b.contains(x)).collect()
}

/// A panic inside the library, outside the documented ones, breaks whatever is being checked.
pub fn pan<T>(r: impl IntoPan<T>, what: impl FnOnce() -> &'static str) -> R<T> {
    r.into_pan(what)
}

pub trait IntoPan<T> {
    fn into_pan(self, what: impl FnOnce() -> &'static str) -> R<T>;
}

impl<T> IntoPan<T> for Result<T, Panicked> {
    fn into_pan(self, what: impl FnOnce() -> &'static str) -> R<T> {
        self.map_err(|p| Viol { detail: format!("{} failed: {}", what(), p) })
    }
}

impl IntoPan<String> for String {
    fn into_pan(self, _: impl FnOnce() -> &'static str) -> R<String> {
        Ok(self)
    }
}

/// Applies a request without judging it. True if accepted.
pub fn apply_plain(g: &mut Game, w: usize, req: Req) -> bool {
    match req {
        Req::Play(p) => g.try_play(mv(w, p)).is_ok(),
        Req::Pass => g.try_play(Move::Pass).is_ok(),
        Req::Resign(c) => g.try_play(Move::Resign(col(c))).is_ok(),
        Req::Resume => {
            g.resume();
            true
        }
        Req::Komi(k) => {
            g.set_komi(k as f32 / 4.0);
            true
        }
        Req::Off(..) => false,
    }
}

impl Track {
    fn clone_light(&self) -> Track {
        Track {
            rules: self.rules.clone(),
            board: self.board.clone(),
            turn: self.turn,
            passes: self.passes,
            pris: self.pris,
            placed: self.placed,
            plays_from: vec![],
            seen: Default::default(),
            distinct: vec![],
            last: None,
            outcome: self.outcome,
        }
    }

    /// The play is legal in every respect; only a repetition rule could have removed it.
    fn verdict_only_rep_differs(&self, p: usize) -> bool {
        let v = self.verdict(p);
        !v.occupied && !v.suicide && !v.ko && !v.superko
    }
}

/// C12: groups, liberties and neighbour queries against the stones on the board.
pub fn check_groups(cx: &mut Cx, gb: &goban::pieces::goban::Goban, b: &Board, turn: u8, game: Option<&Game>) -> R {
    let w = b.w;
    let exp = b.groups();
    cx.n("group_tables_compared");
    if exp.iter().any(|g| g.stones.len() >= 3) {
        cx.hot += 1;
    }
    pan(
        guard(|| -> R {
            // every reported group, by its bookkeeping
            let mut lib: Vec<(u8, usize, Vec<usize>)> = gb
                .chains()
                .map(|c| {
                    let mut l = c.liberties();
                    l.sort_unstable();
                    (uncol(c.color), c.num_stones as usize, l)
                })
                .collect();
            lib.sort();
            let mut e: Vec<(u8, usize, Vec<usize>)> = exp.iter().map(|g| (g.color, g.stones.len(), g.libs.clone())).collect();
            e.sort();
            if lib != e {
                let a: Vec<_> = lib.iter().filter(|x| !e.contains(x)).take(3).collect();
                let z: Vec<_> = e.iter().filter(|x| !lib.contains(x)).take(3).collect();
                return viol(format!("groups (colour, stones, liberties) on {}: {} reported, {} exist; reported only {:?}, missing {:?}", b.draw(), lib.len(), e.len(), a, z));
            }
            for c in gb.chains() {
                let l = c.liberties();
                if c.number_of_liberties() != l.len() || c.is_atari() != (l.len() == 1) || c.is_dead() != l.is_empty() {
                    return viol(format!("liberty counts of a group disagree on {}", b.draw()));
                }
                for i in 0..b.n() {
                    if c.contains_liberty(i) != l.contains(&i) {
                        return viol(format!("contains_liberty({}) disagrees with liberties() on {}", i, b.draw()));
                    }
                }
            }
            // by id: stones of the groups next to each point
            let mut seen: Vec<(usize, usize)> = vec![]; // (id, first stone)
            let mut gi = vec![usize::MAX; b.n()];
            for (k, g) in exp.iter().enumerate() {
                for &s in &g.stones {
                    gi[s] = k;
                }
            }
            for p in 0..b.n() {
                let ids = gb.get_connected_groups_idx(coord(w, p));
                let mut got = vec![];
                for &id in &ids {
                    let mut stones: Vec<usize> = vec![];
                    let mut colr = 0;
                    for s in gb.chain_stones(id) {
                        stones.push(idx(w, s.coord));
                        colr = uncol(s.color);
                        if stones.len() > b.n() {
                            return viol(format!("stones of a group do not end on {}", b.draw()));
                        }
                    }
                    stones.sort_unstable();
                    let Some(k) = exp.iter().position(|g| g.stones == stones && g.color == colr) else {
                        return viol(format!("group next to {:?} has stones {:?}, no such group on {}", coord(w, p), stones, b.draw()));
                    };
                    if let Some(&(id2, _)) = seen.iter().find(|&&(i2, k2)| (i2 == id) != (k2 == k)) {
                        return viol(format!("group id {} and {} mixed up on {}", id, id2, b.draw()));
                    }
                    if !seen.contains(&(id, k)) {
                        seen.push((id, k));
                    }
                    got.push(k);
                }
                got.sort_unstable();
                let mut want: Vec<usize> = b.nbrs(p).filter(|&q| gi[q] != usize::MAX).map(|q| gi[q]).collect();
                want.sort_unstable();
                want.dedup();
                if got != want {
                    return viol(format!("groups connected to {:?} on {}: {:?}, expected {:?}", coord(w, p), b.draw(), got, want));
                }
                // liberties and neighbours
                let l = sorted_idx(w, gb.get_liberties(coord(w, p)));
                let mut e: Vec<usize> = b.nbrs(p).filter(|&q| b.c[q] == 0).collect();
                e.sort_unstable();
                if l != e || gb.has_liberties(coord(w, p)) == e.is_empty() {
                    return viol(format!("liberties of {:?} on {}: {:?}, expected {:?}", coord(w, p), b.draw(), l, e));
                }
                let mut st: Vec<(usize, u8)> = gb.get_connected_stones(coord(w, p)).map(|s| (idx(w, s.coord), uncol(s.color))).collect();
                st.sort_unstable();
                let mut e: Vec<(usize, u8)> = b.nbrs(p).filter(|&q| b.c[q] != 0).map(|q| (q, b.c[q])).collect();
                e.sort_unstable();
                if st != e {
                    return viol(format!("stones connected to {:?} on {}: {:?}, expected {:?}", coord(w, p), b.draw(), st, e));
                }
                let mut pt: Vec<(usize, u8)> = gb.get_connected_points(coord(w, p)).map(|s| (idx(w, s.coord), cell(s.color))).collect();
                pt.sort_unstable();
                let mut e: Vec<(usize, u8)> = b.nbrs(p).map(|q| (q, b.c[q])).collect();
                e.sort_unstable();
                if pt != e {
                    return viol(format!("points connected to {:?} on {}: {:?}, expected {:?}", coord(w, p), b.draw(), pt, e));
                }
                if let Some(g) = game {
                    if b.c[p] == 0 {
                        let wc = g.will_capture(coord(w, p));
                        let e = b.nbrs(p).any(|q| b.c[q] == 3 - turn && exp[gi[q]].libs == [p]);
                        if wc != e {
                            return viol(format!("will_capture({:?}) for {} on {} is {}", coord(w, p), turn, b.draw(), wc));
                        }
                    }
                }
            }
            // flood-fill queries
            if b.n() <= 100 {
                for p in 0..b.n() {
                    let (mut r, _) = b.region(p);
                    let point = Point { coord: coord(w, p), color: gb.get_color(coord(w, p)) };
                    let mut x: Vec<usize> = gb.get_group_from_point(point).iter().map(|q| idx(w, q.coord)).collect();
                    x.sort_unstable();
                    r.sort_unstable();
                    if x != r {
                        return viol(format!("get_group_from_point({:?}) on {}: {:?}, expected {:?}", coord(w, p), b.draw(), x, r));
                    }
                }
                let mut sets: Vec<Vec<usize>> = gb
                    .get_chains_from_stones(gb.get_stones().map(|s| Point { coord: s.coord, color: Some(s.color) }))
                    .iter()
                    .map(|h| {
                        let mut v: Vec<usize> = h.iter().map(|q| idx(w, q.coord)).collect();
                        v.sort_unstable();
                        v
                    })
                    .collect();
                sets.sort();
                let mut e: Vec<Vec<usize>> = exp.iter().map(|g| g.stones.clone()).collect();
                e.sort();
                if sets != e {
                    return viol(format!("get_chains_from_stones on {}: {:?}, expected {:?}", b.draw(), sets, e));
                }
            }
            Ok(())
        }),
        || "group query",
    )?
}

/// C13: all views of the board against its points.
pub fn check_views(cx: &mut Cx, game: &Game, b: &Board) -> R {
    let gb = game.goban();
    pan(guard(|| check_board_views(gb, b)), || "view")??;
    let w = b.w;
    let empty: Vec<usize> = (0..b.n()).filter(|&i| b.c[i] == 0).collect();
    pan(
        guard(|| -> R {
            for (name, v) in [("pseudo_legals", game.pseudo_legals().collect::<Vec<_>>()), ("pseudo_legals_vec", game.pseudo_legals_vec())] {
                if sorted_idx(w, v.iter().copied()) != empty || v.iter().any(|c| c.0 as usize >= b.h || c.1 as usize >= b.w) {
                    return viol(format!("{} on {}: {:?}", name, b.draw(), v));
                }
            }
            if game.size() != (b.h as u8, b.w as u8) || gb.size() != game.size() {
                return viol(format!("size {:?}", game.size()));
            }
            Ok(())
        }),
        || "view",
    )??;
    cx.n("view_sets_compared");
    if b.c.iter().any(|&x| x == 1) && b.c.iter().any(|&x| x == 2) {
        cx.hot += 1;
    }
    Ok(())
}

pub fn check_board_views(gb: &goban::pieces::goban::Goban, b: &Board) -> R {
    let w = b.w;
    let inb = |c: (u8, u8)| (c.0 as usize) < b.h && (c.1 as usize) < b.w;
    if gb.size() != (b.h as u8, b.w as u8) {
        return viol(format!("size {:?}, expected {}x{}", gb.size(), b.h, b.w));
    }
    for i in 0..b.n() {
        if cell(gb.get_color(coord(w, i))) != b.c[i] || cell(gb.get_color(i)) != b.c[i] {
            return viol(format!("get_color at {:?} on {}", coord(w, i), b.draw()));
        }
    }
    let v: Vec<u8> = gb.to_vec().into_iter().map(cell).collect();
    if v != b.c {
        return viol(format!("to_vec has {} points {:?}, board is {}", v.len(), v, b.draw()));
    }
    let m: Vec<Vec<u8>> = gb.matrix().into_iter().map(|r| r.into_iter().map(cell).collect()).collect();
    let e: Vec<Vec<u8>> = b.c.chunks(b.w).map(|x| x.to_vec()).collect();
    if m != e {
        return viol(format!("matrix {:?}, board is {}", m, b.draw()));
    }
    let mut st: Vec<(usize, u8)> = vec![];
    for s in gb.get_stones() {
        if !inb(s.coord) {
            return viol(format!("get_stones reports {:?} on {}", s, b.draw()));
        }
        st.push((idx(w, s.coord), uncol(s.color)));
    }
    st.sort_unstable();
    let es: Vec<(usize, u8)> = (0..b.n()).filter(|&i| b.c[i] != 0).map(|i| (i, b.c[i])).collect();
    if st != es {
        return viol(format!("get_stones {:?} on {}", st, b.draw()));
    }
    for c in 0..3u8 {
        let mc = if c == 0 { None } else { Some(col(c)) };
        let e: Vec<usize> = (0..b.n()).filter(|&i| b.c[i] == c).collect();
        let v: Vec<_> = gb.get_coords_by_color(mc).collect();
        if v.iter().any(|&x| !inb(x)) || sorted_idx(w, v.iter().copied()) != e {
            return viol(format!("get_coords_by_color({}) {:?} on {}", c, v, b.draw()));
        }
        let v: Vec<_> = gb.get_stones_by_color(mc).collect();
        if v.iter().any(|x| x.color != mc || !inb(x.coord)) || sorted_idx(w, v.iter().map(|x| x.coord)) != e {
            return viol(format!("get_stones_by_color({}) on {}", c, b.draw()));
        }
        if c == 0 {
            let v: Vec<_> = gb.get_empty_coords().collect();
            if v.iter().any(|&x| !inb(x)) || sorted_idx(w, v.iter().copied()) != e {
                return viol(format!("get_empty_coords {:?} on {}", v, b.draw()));
            }
            let mut v: Vec<_> = gb.get_empty_idx().collect();
            v.sort_unstable();
            if v != e {
                return viol(format!("get_empty_idx {:?} on {}", v, b.draw()));
            }
        }
    }
    if gb.number_of_stones() != b.count() {
        return viol(format!("number_of_stones {:?} on {}", gb.number_of_stones(), b.draw()));
    }
    for s in [gb.pretty_string(), format!("{}", gb)] {
        let lines: Vec<Vec<char>> = s.lines().map(|l| l.chars().collect()).collect();
        let ok = lines.len() == b.h
            && lines.iter().all(|l| l.len() == b.w)
            && lines.iter().enumerate().all(|(r, l)| {
                l.iter().enumerate().all(|(c, &ch)| match b.c[r * w + c] {
                    1 => ch == '●',
                    2 => ch == '○',
                    _ => ch != '●' && ch != '○',
                })
            });
        if !ok {
            return viol(format!("drawing {:?} of {}", s, b.draw()));
        }
        // the lines drawn at an empty point lead to its neighbours, and nowhere off the board
        for (i, &ch) in lines.iter().flatten().enumerate() {
            let strokes = match ch {
                '┏' => 0b0101, // up, down, left, right
                '┓' => 0b0110,
                '┗' => 0b1001,
                '┛' => 0b1010,
                '┯' => 0b0111,
                '┷' => 0b1011,
                '┠' => 0b1101,
                '┨' => 0b1110,
                '┼' => 0b1111,
                _ => continue,
            };
            let (r, c) = (i / w, i % w);
            let is = (c + 1 < w) as u8 | ((c > 0) as u8) << 1 | ((r + 1 < b.h) as u8) << 2 | ((r > 0) as u8) << 3;
            if b.h > 1 && w > 1 && is != strokes {
                return viol(format!("drawing {:?} of {}: '{}' at {:?}", s, b.draw(), ch, (r, c)));
            }
        }
    }
    Ok(())
}
