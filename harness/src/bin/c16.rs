use gaoya::text::*;
use gv::engine::*;
use gv::ensure;
use gv::gens;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Case {
    Text(String),
    /// words joined by arbitrary separators: tokens must be the words
    Joined(Vec<String>, Vec<String>, String),
    /// pieces repeated: long texts, long tokens, long runs of separators
    Rep(Vec<(String, u16)>),
}
struct P;

fn sep(c: char) -> bool {
    // ASCII punctuation: 21-2F 3A-40 5B-60 7B-7E; ASCII whitespace: space \t \n \f \r
    matches!(c, '\u{21}'..='\u{2f}' | '\u{3a}'..='\u{40}' | '\u{5b}'..='\u{60}' | '\u{7b}'..='\u{7e}' | ' ' | '\t' | '\n' | '\u{0c}' | '\r')
}
fn model(t: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for c in t.chars() {
        if sep(c) {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}
fn head(t: &str) -> String {
    t.chars().take(200).collect()
}
fn check_text(t: &str, ctx: &mut Ctx) -> Result<Vec<String>, String> {
    let want = model(t);
    let a: Vec<String> = whitespace_split(t).map(|s| s.to_string()).collect();
    let b: Vec<String> = whitespace_split_boxed(t).map(|s| s.to_string()).collect();
    ctx.cmp();
    ensure!(a == want, "whitespace_split({:?}) = {} tokens {:?}, expected {} {:?}", head(t), a.len(), &a[..a.len().min(30)], want.len(), &want[..want.len().min(30)]);
    ensure!(b == want, "whitespace_split_boxed({:?}) = {} tokens {:?}, expected {} {:?}", head(t), b.len(), &b[..b.len().min(30)], want.len(), &want[..want.len().min(30)]);
    Ok(a)
}

impl Property for P {
    type Case = Case;
    const ID: &'static str = "C16";
    const RULE: &'static str = "Unicode text, or words joined by generated separators; non-trivial if there are two tokens or a token with non-ASCII characters";
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let s = || prop::collection::vec(prop::sample::select((0u8..128).map(|b| b as char).filter(|c| sep(*c)).collect::<Vec<_>>()), 1..4).prop_map(|v| v.into_iter().collect::<String>());
        let nonsep = prop_oneof![4 => gens::ch(), 1 => (0u8..128).prop_map(|b| b as char), 1 => (0x80u32..0x600).prop_map(|c| char::from_u32(c).unwrap())]
            .prop_map(|c| if sep(c) { 'x' } else { c });
        let w = prop::collection::vec(nonsep, 1..6).prop_map(|v| v.into_iter().collect::<String>());
        let times = prop_oneof![6 => 1u16..40, 2 => 40u16..700, 1 => 700u16..9000];
        let piece = (prop_oneof![3 => gens::text(6), 2 => gens::text(1), 1 => Just(" ".to_string()), 1 => Just("x".to_string()), 1 => Just("é ".to_string())], times);
        prop_oneof![
            1 => (0u8..20, prop::collection::vec(piece, 1..5)).prop_map(|(k, v)| if k == 0 { Case::Rep(v) } else { Case::Rep(v.into_iter().map(|(s, n)| (s, n % 50)).collect()) }),
            30 => gens::text(40).prop_map(Case::Text),
            10 => prop::collection::vec((0u8..128).prop_map(|b| b as char), 0..40).prop_map(|v| Case::Text(v.into_iter().collect())),
            10 => any::<String>().prop_map(Case::Text),
            40 => prop::collection::vec(w, 0..8).prop_flat_map(move |w| {
                let n = w.len();
                (Just(w), prop::collection::vec(s(), n + 1), prop_oneof![Just(String::new()), s()])
            }).prop_map(|(a, b, c)| Case::Joined(a, b, c)),
        ]
        .boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 1_000_000 } else { 20_000_000 }
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        let toks = match c {
            Case::Text(t) => check_text(t, ctx)?,
            Case::Rep(v) => {
                let t: String = v.iter().map(|(s, n)| s.repeat(*n as usize)).collect();
                if t.len() > 4096 {
                    ctx.label("text of more than 4096 bytes");
                }
                check_text(&t, ctx)?
            }
            Case::Joined(w, s, edge) => {
                let join = |seps: &dyn Fn(usize) -> String, lead: &str, tail: &str| -> String {
                    let mut t = lead.to_string();
                    for (i, x) in w.iter().enumerate() {
                        if i > 0 {
                            t.push_str(&seps(i));
                        }
                        t.push_str(x);
                    }
                    t + tail
                };
                let a = check_text(&join(&|i| s[i].clone(), edge, &s[0]), ctx)?;
                ensure!(a == *w, "words {w:?} joined by separators are split into {a:?}");
                let b = check_text(&join(&|_| " ".into(), "", ""), ctx)?;
                ensure!(b == *w, "words {w:?} joined by spaces are split into {b:?}");
                ctx.label("joined words");
                a
            }
        };
        if toks.len() >= 2 || toks.iter().any(|t| !t.is_ascii()) {
            ctx.nontrivial();
        }
        if toks.iter().any(|t| !t.is_ascii()) {
            ctx.label("non-ASCII token");
        }
        Ok(())
    }
}
fn main() {
    run_main::<P>()
}
