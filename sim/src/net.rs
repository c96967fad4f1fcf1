//! The simulated transport: messages are cut into packets, and a scheduler decides what happens to
//! each packet. Nothing is ever sent over a real socket.
use crate::ctx::Ctx;

/// How packets are cut: at token ends or at arbitrary characters.
pub fn packets(c: &mut Ctx, msg: &str) -> Vec<String> {
    let mut out = vec![];
    let mode = c.t.pick(3);
    let mtu = match mode {
        0 => 24,
        1 => c.t.range(1, 6),
        _ => c.t.range(4, 80),
    };
    let mut cur = String::new();
    let mut prev_word = false;
    for ch in msg.chars() {
        let word = ch.is_alphanumeric() || ch == '_';
        let boundary = mode == 2 || !(word && prev_word);
        if boundary && cur.chars().count() >= mtu {
            out.push(std::mem::take(&mut cur));
        }
        cur.push(ch);
        prev_word = word;
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

const NOISE: &[&str] = &[
    "{", "}", "(", ")", "[", "]", "$", "@", "!", "...", ":", "=", "|", "&", "\"", "\"\"\"", "\\", "#", "0", "-", ".", "1e999", "99999999999", "null", "on", "\u{0}", "é", "\u{feff}", "🔥", ",",
    "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2028}", "\u{200b}", "%", "'", "`", ";", "/", "<", "?", "~", "\r", "\\u00e9", "\\ud83d\\udc4d", "\\uDC00\\u0041", "\\uD800\\u{41}", "\\u{110000}", "\\u{1F600}", "\\x",
    "                                                                                                                                  ", "\n\t\t \n", "1.5e3", "-0", "1.", "00", "..", "....",
];

/// Send `msg`; returns what the receiver reassembles, or None when the connection was cut before
/// anything arrived. `stray`: a message of another session whose packets may be misrouted here.
/// `level`: how many faults at most.
pub fn transmit(c: &mut Ctx, msg: &str, stray: Option<&str>, level: usize) -> (String, usize) {
    let mut ps = packets(c, msg);
    let mut n = 0;
    if c.faults_on && level > 0 && c.t.chance(2, 3) {
        n = c.t.range(1, level);
    }
    let mut done = 0;
    for _ in 0..n {
        if ps.is_empty() {
            break;
        }
        let i = c.t.pick(ps.len());
        done += 1;
        match c.t.pick(10) {
            0 => {
                c.fault("packet_lost");
                ps.remove(i);
            }
            1 => {
                c.fault("packet_duplicated");
                let p = ps[i].clone();
                ps.insert(i, p);
            }
            2 => {
                c.fault("packets_reordered");
                let j = (i + 1 + c.t.pick(2)).min(ps.len() - 1);
                ps.swap(i, j);
            }
            3 => {
                c.fault("connection_cut");
                let k = c.t.pick(ps[i].chars().count() + 1);
                ps[i] = ps[i].chars().take(k).collect();
                ps.truncate(i + 1);
            }
            4 => {
                c.fault("start_lost");
                ps.drain(..i);
            }
            5 => {
                c.fault("char_corrupted");
                let mut v: Vec<char> = ps[i].chars().collect();
                if !v.is_empty() {
                    let k = c.t.pick(v.len());
                    let r = *c.t.choose(&['{', '}', '(', ')', '"', '$', '@', ':', '.', 'a', '0', '\\', ' ', '\n', '!', '-', 'u', '\u{e9}', '\u{1}', '#']);
                    v[k] = r;
                }
                ps[i] = v.into_iter().collect();
            }
            6 => {
                c.fault("noise_inserted");
                let w = *c.t.choose(&NOISE);
                let v: Vec<char> = ps[i].chars().collect();
                let k = c.t.pick(v.len() + 1);
                ps[i] = v[..k].iter().collect::<String>() + w + &v[k..].iter().collect::<String>();
            }
            7 => {
                c.fault("char_lost");
                let mut v: Vec<char> = ps[i].chars().collect();
                if !v.is_empty() {
                    let k = c.t.pick(v.len());
                    v.remove(k);
                }
                ps[i] = v.into_iter().collect();
            }
            8 => {
                if let Some(o) = stray {
                    c.fault("packet_misrouted");
                    let q = packets(c, o);
                    if !q.is_empty() {
                        let k = c.t.pick(q.len());
                        ps.insert(i, q[k].clone());
                    }
                } else {
                    c.fault("packet_lost");
                    ps.remove(i);
                }
            }
            _ => {
                // the stream is cut at a byte, possibly inside a character; the receiver decodes
                // lossily
                c.fault("torn_utf8");
                let all = ps.concat();
                let mut b = all.into_bytes();
                if !b.is_empty() {
                    let k = c.t.pick(b.len());
                    b.remove(k);
                }
                ps = vec![String::from_utf8_lossy(&b).into_owned()];
            }
        }
    }
    (ps.concat(), done)
}

/// Interleave `tasks` by tape until all are done. A task returns false when it has finished.
pub fn interleave<'a>(c: &mut Ctx, mut tasks: Vec<Box<dyn FnMut(&mut Ctx) -> crate::ctx::R<bool> + 'a>>) -> crate::ctx::R {
    let mut live: Vec<usize> = (0..tasks.len()).collect();
    let mut fuel = 4000;
    while !live.is_empty() && fuel > 0 {
        fuel -= 1;
        let k = c.t.pick(live.len());
        let i = live[k];
        if !tasks[i](c)? {
            live.remove(k);
        }
    }
    Ok(())
}
