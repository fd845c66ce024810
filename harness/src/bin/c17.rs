use gaoya::text::*;
use gv::engine::*;
use gv::ensure;
use gv::gens;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    text: String,
    toks: Vec<String>,
    from: usize,
    span: usize,
    /// the text and the token list are repeated this often (0: once)
    #[serde(default)]
    rep: u16,
}
struct P;

fn grams<T: Clone>(v: &[T], n: usize) -> Vec<Vec<T>> {
    if n == 0 || n > v.len() { vec![] } else { v.windows(n).map(|w| w.to_vec()).collect() }
}

impl Property for P {
    type Case = Case;
    const ID: &'static str = "C17";
    const RULE: &'static str = "text, token list and range; non-trivial if at least two n-grams exist";
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let size = || prop_oneof![6 => 1usize..5, 2 => 1usize..12, 1 => 1usize..60];
        let span = prop_oneof![3 => 0usize..4, 1 => 0usize..12, 1 => 0usize..50];
        let text = prop_oneof![4 => gens::text(12), 3 => gens::text(40), 2 => "[ab]{0,8}", 1 => any::<String>(), 1 => gens::text(2)];
        let rep = prop_oneof![600 => Just(0u16), 6 => 2u16..40, 1 => 40u16..400];
        (text, prop::collection::vec(gens::text(4), 0..10), size(), span, rep).prop_map(|(text, toks, from, span, rep)| Case { text, toks, from, span: if rep > 40 { span % 4 } else { span }, rep }).boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 800_000 } else { 16_000_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<Case>, u64)> {
        // long n-grams of long texts
        let size = prop_oneof![2 => 60usize..200, 4 => 200usize..700, 1 => 700usize..3000];
        let s = (gens::text(12), prop::collection::vec(gens::text(4), 1..10), size, 0usize..4, 20u16..900)
            .prop_map(|(text, toks, from, span, rep)| Case { text, toks, from, span, rep: rep.min((1 + 4_000_000 / (1 + from * 12)) as u16) });
        // short n-grams of very long texts
        let l = (gens::text(12), prop::collection::vec(gens::text(4), 1..10), prop_oneof![3 => 1usize..6, 1 => 1usize..20], 0usize..4, 3000u16..20_000)
            .prop_map(|(text, toks, from, span, rep)| Case { text, toks, from, span, rep });
        Some((prop_oneof![7 => s, 1 => l].boxed(), if t == Tier::Quick { 272 } else { 4500 }))
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        let n = c.rep.max(1) as usize;
        let (text, all) = (c.text.repeat(n), vec![c.toks.clone(); n].concat());
        let c = &Case { text, toks: all, ..c.clone() };
        if c.text.len() > 1024 {
            ctx.label("text of more than 1024 bytes");
        }
        let chars: Vec<char> = c.text.chars().collect();
        let toks: Vec<&str> = c.toks.iter().map(|s| s.as_str()).collect();
        let (from, to) = (c.from, c.from + c.span);
        let s = |v: Vec<Vec<char>>| -> Vec<String> { v.into_iter().map(|w| w.into_iter().collect()).collect() };
        ctx.cmp();
        // fixed size: in order
        let want = s(grams(&chars, from));
        let cap = chars.len() + 8; // an iterator that never ends must not hang the check
        let a: Vec<String> = shingle_text(&c.text, from).take(cap).map(|x| x.to_string()).collect();
        ensure!(a == want, "shingle_text({:?}, {from}) = {a:?}, expected {want:?}", c.text);
        let b: Vec<String> = shingle_text_boxed(&c.text, from).take(cap).map(|x| x.to_string()).collect();
        ensure!(b == want, "shingle_text_boxed({:?}, {from}) = {b:?}, expected {want:?}", c.text);
        let wt: Vec<String> = grams(&toks, from).into_iter().map(|w| w.concat()).collect();
        let t: Vec<String> = shingle_tokens(&toks, from).take(toks.len() + 8).collect();
        ensure!(t == wt, "shingle_tokens({toks:?}, {from}) = {t:?}, expected {wt:?}");
        // ranges: as multisets
        let mut want: Vec<String> = (from..=to).flat_map(|n| s(grams(&chars, n))).collect();
        let cap = want.len() + 50;
        if want.len() >= 2 {
            ctx.nontrivial();
        }
        if c.span >= 2 && chars.len() > from {
            ctx.label("range of three or more sizes");
        }
        if to > chars.len() && from < chars.len() {
            ctx.label("range reaches beyond the text");
        }
        if !c.text.is_ascii() {
            ctx.label("non-ASCII");
        }
        want.sort();
        let mut got: Vec<String> = shingle_text_range(&c.text, from, to).take(cap).map(|x| x.to_string()).collect();
        got.sort();
        ensure!(got == want, "shingle_text_range({:?}, {from}, {to}) = {got:?}, expected {want:?}", c.text);
        let mut got: Vec<String> = MultiShingles::new(c.text.as_str(), from, to).take(cap).map(|x| x.to_string()).collect();
        got.sort();
        ensure!(got == want, "MultiShingles over str {:?}, {from}..={to} = {got:?}, expected {want:?}", c.text);
        let mut want: Vec<Vec<&str>> = (from..=to).flat_map(|n| grams(&toks, n)).collect();
        want.sort();
        let mut got: Vec<Vec<&str>> = MultiShingles::new(toks.as_slice(), from, to).take(want.len() + 50).map(|x| x.to_vec()).collect();
        got.sort();
        ensure!(got == want, "MultiShingles over {toks:?}, {from}..={to} = {got:?}, expected {want:?}");
        // slices of other types, including zero-sized tokens such as empty strings above
        let mut want: Vec<Vec<char>> = (from..=to).flat_map(|n| grams(&chars, n)).collect();
        want.sort();
        let mut got: Vec<Vec<char>> = MultiShingles::new(chars.as_slice(), from, to).take(want.len() + 50).map(|x| x.to_vec()).collect();
        got.sort();
        ensure!(got == want, "MultiShingles over chars of {:?}, {from}..={to}: {} n-grams, expected {}", c.text, got.len(), want.len());
        Ok(())
    }
}
fn main() {
    run_main::<P>()
}
