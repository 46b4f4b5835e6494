//! A lossy message network between simulated nodes (tasks): loss, duplication, delay (and with it
//! reordering), partitions that heal, worker crashes. Faults stop at `heal_at`.
use crate::faults::*;
use crate::plan::NetP;
use crate::rng::hash;
use crate::rt::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Msg {
    Job { part: u32, attempt: u32, items: Vec<(u32, String)>, expr: Option<String>, way: u8 },
    Done { part: u32, order: Vec<u32> },
    Stop,
}

#[derive(Default)]
pub struct Net {
    pub p: NetP,
    pub queues: BTreeMap<usize, Vec<(u64, u64, Msg)>>,
    pub node_task: BTreeMap<usize, usize>,
    pub seq: u64,
    pub sent: u64,
    pub next_node: usize,
}

fn net() -> &'static mut Net {
    unsafe { &mut (*SIM).net }
}

fn deliver(to: usize, at: u64, m: Msg) {
    let n = net();
    n.seq += 1;
    let s = n.seq;
    n.queues.entry(to).or_default().push((at, s, m));
    // a sleeping receiver wakes up in time for it
    if let Some(&t) = n.node_task.get(&to) {
        unsafe {
            let st = &mut (&mut (*SIM).tasks)[t].st;
            if let St::Sleep(u) = *st {
                if at < u {
                    *st = St::Sleep(at);
                }
            }
        }
    }
}

/// Fault kinds here: MSG_LOSS, MSG_DUP, MSG_DELAY.
pub fn send(to: usize, m: Msg) {
    enter(|| {
        point_io();
        let n = net();
        n.sent += 1;
        let p = n.p.clone();
        let io = next_io();
        let f = fault_at(io, |r| {
            if now() >= p.heal_at {
                return None;
            }
            if p.loss > 0 && r.below(1000) < p.loss as u64 {
                return Some((MSG_LOSS, 0));
            }
            if p.dup > 0 && r.below(1000) < p.dup as u64 {
                return Some((MSG_DUP, r.log(p.max_delay.max(2)) as i64));
            }
            if p.delay > 0 && r.below(1000) < p.delay as u64 {
                return Some((MSG_DELAY, r.log(p.max_delay.max(2)) as i64));
            }
            None
        });
        note(|| format!("send to node {} {:?} fault {:?}", to, short(&m), f));
        // a partition cuts a node off for a stretch of time
        if p.partition > 0 && now() < p.heal_at && !is_replay_quiet() {
            let slot = now() / 1_000_000_000;
            if hash(&[n.p.heal_at, 5, to as u64, slot]) % 1000 < p.partition as u64 {
                count(PARTITION as usize);
                return;
            }
        }
        let base = now() + 50_000;
        match f {
            Some((MSG_LOSS, _)) => {}
            Some((MSG_DUP, d)) => {
                deliver(to, base, m.clone());
                deliver(to, base + d as u64, m);
            }
            Some((MSG_DELAY, d)) => deliver(to, base + d as u64, m),
            _ => deliver(to, base, m),
        }
    })
}

fn is_replay_quiet() -> bool {
    faults_quiet()
}

fn short(m: &Msg) -> String {
    match m {
        Msg::Job { part, attempt, items, .. } => format!("job {} attempt {} of {} items", part, attempt, items.len()),
        Msg::Done { part, order } => format!("done {} of {} items", part, order.len()),
        Msg::Stop => "stop".into(),
    }
}

/// Receives the next message for `node`, or None at `deadline`.
pub fn recv(node: usize, deadline: u64) -> Option<Msg> {
    enter(|| {
        let me = task_id();
        net().node_task.insert(node, me);
        loop {
            point_io();
            let t = now();
            let q = net().queues.entry(node).or_default();
            let mut best: Option<usize> = None;
            for (i, m) in q.iter().enumerate() {
                if m.0 <= t && best.map_or(true, |b| (m.0, m.1) < (q[b].0, q[b].1)) {
                    best = Some(i);
                }
            }
            if let Some(i) = best {
                let m = q.remove(i).2;
                note(|| format!("node {} receives {}", node, short(&m)));
                return Some(m);
            }
            if t >= deadline {
                return None;
            }
            let next = q.iter().map(|m| m.0).min().unwrap_or(deadline).min(deadline);
            sleep_inner((next - t).max(1));
        }
    })
}
