//! The GraphQL back ends: what is asked of the endpoints, and what becomes of their answers.
use mina_network_js::processor::js::{graphql_api_berkeley::NonConsensusGraphQLBerkeleyBackend as Berkeley, graphql_api_v1::NonConsensusGraphQLV1Backend as V1};
use mina_network_js::processor::{NonConsensusNetworkingOps, QueryBlockRequest};
use mina_serialization_types::json::ExternalTransitionJson;
use std::cell::RefCell;
use std::future::Future;
use std::mem::ManuallyDrop;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use tokio::sync::mpsc::{channel, Receiver};
use wasm_bindgen::host::{self, Arg};
use wasm_bindgen::prelude::JsValue;

/// what an endpoint answers
#[derive(Clone, Copy, PartialEq)]
enum How {
    Good,
    Refused,
    NoText,
    BadText,
}
use How::*;
fn how() -> How {
    [Good, Refused, NoText, BadText][sym::choose(4) as usize]
}
#[derive(Default)]
struct World {
    list: Option<(How, String)>,
    answers: Vec<(How, u8)>,
    /// what was asked, in order
    listed: Vec<usize>,
    fetched: Vec<(usize, String)>,
    chains: Vec<(String, Vec<String>)>,
}
std::thread_local! { static WORLD: ManuallyDrop<RefCell<World>> = ManuallyDrop::new(RefCell::new(World::default())); }
fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}
fn two(n: u8) -> String {
    String::from_utf8(vec![b'0' + n / 10, b'0' + n % 10]).unwrap_or_default()
}
fn answer(h: How, good: String) -> Result<JsValue, JsValue> {
    match h {
        Good => Ok(good.into()),
        Refused => Err("no".into()),
        NoText => Ok(JsValue::NULL),
        BadText => Ok(["{", &good].concat().into()),
    }
}
fn answers(name: &'static str, args: Vec<Arg>) -> Result<JsValue, JsValue> {
    let mut args = args.into_iter();
    match (name, args.next(), args.next()) {
        ("query_latest_blocks_json_str", Some(Arg::Num(n)), None) => world(|w| {
            w.listed.push(n);
            match w.list.take() {
                Some((h, s)) => answer(h, s),
                None => Err(JsValue::NULL),
            }
        }),
        ("fetch_block_json_str", Some(Arg::Num(h)), Some(Arg::Text(s))) => world(|w| {
            let (a, n) = w.answers.get(w.fetched.len()).copied().unwrap_or((Refused, 0));
            w.fetched.push((h, s));
            answer(a, ["{\"block\":1", &two(n), "}"].concat())
        }),
        ("fetch_best_chain_json_str", Some(Arg::Text(e)), Some(Arg::Texts(t))) => world(|w| {
            let (a, n) = w.answers.get(w.chains.len()).copied().unwrap_or((Refused, 0));
            w.chains.push((e, t));
            answer(a, ["{\"block\":1", &two(n), "}"].concat())
        }),
        _ => {
            sym::check(false, 99);
            Err(JsValue::NULL)
        }
    }
}
fn waker() -> Waker {
    const V: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &V), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &V)) }
}
/// runs it to its end; whoever waits for the blocks takes them early or late, or has gone
fn drive<T, B>(f: impl Future<Output = T>, rx: &mut Option<Receiver<B>>, got: &mut Vec<B>) -> Option<T> {
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut f: Pin<Box<dyn Future<Output = T> + '_>> = Box::pin(f);
    let mut r = None;
    for step in 0..24 {
        if let Poll::Ready(t) = f.as_mut().poll(&mut cx) {
            r = Some(t);
            break;
        }
        if step > 6 || sym::bool() {
            take(rx, got)
        }
    }
    drop(f);
    while take_one(rx, got) {}
    r
}
fn take_one<B>(rx: &mut Option<Receiver<B>>, got: &mut Vec<B>) -> bool {
    match rx.as_mut().map(|r| r.try_recv()) {
        Some(Ok(b)) => {
            got.push(b);
            true
        }
        _ => false,
    }
}
fn take<B>(rx: &mut Option<Receiver<B>>, got: &mut Vec<B>) {
    take_one(rx, got);
}
fn letter() -> u8 {
    let c = sym::u8();
    sym::assume((c >= b'a') & (c <= b'z'));
    c
}
fn below100() -> u8 {
    let n = sym::u8();
    sym::assume(n < 100);
    n
}
/// some number, with its text
fn number() -> (usize, String) {
    let n = below100();
    (100 + n as usize, ["1", &two(n)].concat())
}
fn text(c: u8) -> String {
    String::from_utf8(vec![c, b'x']).unwrap_or_default()
}

/// one round of polling the explorer
pub fn h_v1_poll() {
    host::set(answers);
    let n = sym::choose(4) as usize;
    let list = if sym::choose(3) < 2 { Good } else { how() };
    let mut s = String::from("[");
    let mut want = vec![];
    for i in 0..n {
        let ((h, t), c) = (number(), text(letter()));
        let flip = i == 1;
        if i > 0 {
            s.push(',')
        }
        let parts = ["{\"blockHeight\":", &t, ",\"stateHash\":\"", &c, "\"}"];
        let other = ["{\"stateHash\":\"", &c, "\",\"blockHeight\":", &t, "}"];
        s.push_str(&if flip { other } else { parts }.concat());
        let a = if i < 2 { how() } else { Good };
        want.push((h, c, a, below100()));
    }
    s.push(']');
    world(|w| {
        w.list = Some((list, s));
        w.answers = want.iter().map(|x| (x.2, x.3)).collect();
    });
    let mut b = V1::new();
    let (tx, rx) = channel::<ExternalTransitionJson>(1 + sym::choose(2) as usize);
    let state = sym::choose(4);
    if state > 0 {
        b.set_block_responder(tx);
    }
    // 0: nobody to answer to, 1: gone
    let mut rx = if state == 1 { drop(rx); None } else { Some(rx) };
    let mut got = vec![];
    let r = drive(b.poll_latest_once(), &mut rx, &mut got);
    let ok = match r {
        Some(r) => r.is_ok(),
        None => return sym::check(false, 1),
    };
    let (listed, fetched) = world(|w| (w.listed.clone(), w.fetched.clone()));
    if state == 0 {
        sym::check(ok & listed.is_empty() & fetched.is_empty() & got.is_empty(), 2);
        return sym::cover(3);
    }
    sym::check(listed == [10], 3);
    sym::check(ok == (list == Good), 4);
    if list != Good {
        sym::check(fetched.is_empty() & got.is_empty(), 5);
        return sym::cover(2);
    }
    sym::check(fetched.len() == n, 6);
    for (f, w) in fetched.iter().zip(&want) {
        sym::check(f.0 == w.0, 7);
        sym::check(f.1 == w.1, 8);
    }
    let good: Vec<u64> = want.iter().filter(|w| w.2 == Good && state > 1).map(|w| 100 + w.3 as u64).collect();
    sym::check(got.len() == good.len(), 9);
    for (g, w) in got.iter().zip(&good) {
        sym::check(g.block == *w, 10);
    }
    sym::cover(1);
}
/// a list that is not of heights and hashes is an error, and nothing is fetched
pub fn h_v1_list() {
    host::set(answers);
    let bad = ["[{\"blockHeight\":7}]", "[{\"stateHash\":\"a\"}]", "[{\"blockHeight\":\"7\",\"stateHash\":\"a\"}]", "[{\"blockHeight\":-7,\"stateHash\":\"a\"}]", "[{\"blockHeight\":7.5,\"stateHash\":\"a\"}]",
        "[{\"blockHeight\":7,\"stateHash\":8}]", "[{\"blockHeight\":null,\"stateHash\":\"a\"}]", "{}", "null", "[null]", "[7]", "\"a\"", "[{\"blockHeight\":7,\"stateHash\":\"a\"}", "[{\"blockHeight\":7,\"stateHash\":\"a\"}]]"];
    world(|w| {
        w.list = Some((Good, bad[sym::choose(14) as usize].to_string()));
        w.answers = vec![(Good, 1)];
    });
    let mut b = V1::new();
    let (tx, rx) = channel(2);
    b.set_block_responder(tx);
    let (mut rx, mut got) = (Some(rx), vec![]);
    let r = drive(b.poll_latest_once(), &mut rx, &mut got);
    sym::check(matches!(r, Some(Err(_))), 1);
    sym::check(got.is_empty() && world(|w| w.fetched.is_empty()), 2);
    sym::cover(1);
}
/// a block asked for
pub fn h_v1_query() {
    host::set(answers);
    let (h, c) = (sym::u64() as usize, text(letter()));
    let (a, n) = (how(), below100());
    world(|w| w.answers = vec![(a, n)]);
    let mut b = V1::new();
    let (tx, rx) = channel::<ExternalTransitionJson>(1);
    let state = sym::choose(3);
    if state > 0 {
        b.set_block_responder(tx);
    }
    let mut rx = if state == 1 { drop(rx); None } else { Some(rx) };
    let mut got = vec![];
    let q = QueryBlockRequest { height: h, state_hash: c.clone() };
    let r = drive(b.query_block(&q), &mut rx, &mut got);
    let fetched = world(|w| w.fetched.clone());
    if state == 0 {
        sym::check(matches!(r, Some(Ok(()))) & fetched.is_empty() & got.is_empty(), 1);
        return sym::cover(2);
    }
    sym::check(fetched.len() == 1 && fetched[0].0 == h && fetched[0].1 == c, 2);
    match r {
        Some(Ok(())) => {
            sym::check(a == Good && state == 2, 3);
            sym::check(got.len() == 1 && got[0].block == 100 + n as u64, 4);
            sym::cover(1)
        }
        Some(Err(_)) => {
            sym::check(a != Good || state == 1, 5);
            sym::check(got.is_empty(), 6);
            sym::cover(3)
        }
        None => sym::check(false, 7),
    }
}
fn same(a: &[String], b: &[String]) -> bool {
    a.iter().all(|x| b.contains(x)) && b.iter().all(|x| a.contains(x)) && a.iter().enumerate().all(|(i, x)| !a[i + 1..].contains(x))
}
/// a round over the endpoints of one's choice
fn berkeley(query: bool) {
    host::set(answers);
    let mut b = Berkeley::new();
    let (tx, rx) = channel::<serde_json::Value>(1 + sym::choose(2) as usize);
    let state = sym::choose(4);
    if state > 0 {
        b.set_block_responder(tx);
    }
    let mut rx = if state == 1 { drop(rx); None } else { Some(rx) };
    // an earlier choice does not matter any more
    if sym::bool() {
        b.set_api_list(["old".to_string()].into_iter());
        b.set_tracking_accounts(["gone".to_string()].into_iter());
    }
    let eps: Vec<String> = (0..sym::choose(4)).map(|_| text(letter())).collect();
    let accs: Vec<String> = (0..sym::choose(3)).map(|_| text(letter())).collect();
    b.set_api_list(eps.clone().into_iter());
    b.set_tracking_accounts(accs.clone().into_iter());
    let ans: Vec<(How, u8)> = (0..eps.len()).map(|i| (if i < 2 { how() } else { Good }, below100())).collect();
    world(|w| w.answers = ans.clone());
    let mut got = vec![];
    let q = QueryBlockRequest { height: 1, state_hash: String::new() };
    let r = if query { drive(b.query_block(&q), &mut rx, &mut got) } else { drive(b.poll_latest_once(), &mut rx, &mut got) };
    let ok = match r {
        Some(r) => r.is_ok(),
        None => return sym::check(false, 1),
    };
    let asked = world(|w| w.chains.clone());
    if state == 0 {
        sym::check(ok & asked.is_empty() & got.is_empty(), 2);
        return sym::cover(3);
    }
    let ends: Vec<String> = asked.iter().map(|x| x.0.clone()).collect();
    // no endpoint twice, none that was not chosen, every account each time
    sym::check(ends.iter().enumerate().all(|(i, e)| eps.contains(e) && !ends[i + 1..].contains(e)), 3);
    sym::check(asked.iter().all(|x| same(&x.1, &accs)), 4);
    // all that came is handed on, and what went wrong is not kept quiet
    let good: Vec<u64> = ans[..asked.len()].iter().filter(|a| a.0 == Good && state > 1).map(|a| 100 + a.1 as u64).collect();
    sym::check(got.len() == good.len(), 5);
    for (g, w) in got.iter().zip(&good) {
        sym::check(g["block"].as_u64() == Some(*w), 6);
    }
    let fine = ans[..asked.len()].iter().all(|a| a.0 == Good) && (state > 1 || asked.is_empty());
    sym::check(ok == fine, 7);
    sym::check(!ok || same(&ends, &eps), 8);
    sym::cover(if ok { 1 } else { 2 });
}
pub fn h_berkeley_poll() {
    berkeley(false)
}
pub fn h_berkeley_query() {
    berkeley(true)
}

fn run(n: &str) -> bool {
    sym::dispatch!(n, h_v1_poll, h_v1_list, h_v1_query, h_berkeley_poll, h_berkeley_query)
}
sym::entry!(run);
