//! The message processor: what arrives is handed on, whatever the order in which things happen.
use async_trait::async_trait;
use mina_network::processor::*;
use std::cell::RefCell;
use std::future::{poll_fn, Future};
use std::mem::ManuallyDrop;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use tokio::sync::mpsc::Sender;

#[derive(Default)]
struct World {
    blocks: Option<Sender<Arrived>>,
    requests: Option<Sender<QueryBlockRequest>>,
    expected: usize,
    settled: usize,
    added: Vec<(u8, u64)>,
    asked: Vec<(usize, [u8; 2])>,
    queried: Vec<(usize, [u8; 2])>,
    adding: bool,
    querying: bool,
    orders: u32,
    slow: bool,
    read: u8,
}
std::thread_local! { static WORLD: ManuallyDrop<RefCell<World>> = ManuallyDrop::new(RefCell::new(World::default())); }
fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}
/// nobody asks for blocks any more when all of them went through
fn settle() {
    let gone = world(|w| {
        w.settled += 1;
        if w.settled == w.expected { w.requests.take() } else { None }
    });
    drop(gone);
}

/// a block from the network, and what will happen to it
#[derive(Clone, Copy)]
struct Arrived {
    id: u8,
    converts: bool,
    adds: bool,
    asks: u8,
    data: u64,
}
struct Inner(Arrived);
impl TryFrom<Arrived> for Inner {
    type Error = &'static str;
    fn try_from(a: Arrived) -> Result<Self, Self::Error> {
        if a.converts {
            Ok(Inner(a))
        } else {
            settle();
            Err("conversion")
        }
    }
}
async fn yield_now() {
    let mut once = world(|w| !w.slow);
    poll_fn(move |_| if std::mem::replace(&mut once, true) { Poll::Ready(()) } else { Poll::Pending }).await
}

struct Frontier(u8);
#[async_trait(?Send)]
impl TransitionFrontier for Frontier {
    type Block = Inner;
    fn set_block_requester(&mut self, s: Sender<QueryBlockRequest>) {
        world(|w| w.requests = Some(s));
    }
    async fn add_block(&mut self, b: Inner) -> anyhow::Result<()> {
        // one at a time
        sym::check(!world(|w| std::mem::replace(&mut w.adding, true)), 1);
        self.0 += 1;
        yield_now().await;
        for k in 0..b.0.asks {
            let s = world(|w| w.requests.clone()).unwrap();
            let (height, hash) = (sym::u64() as usize, [b'a' + (sym::u8() & 15), b'a' + k]);
            world(|w| w.asked.push((height, hash)));
            let sent = s.send(QueryBlockRequest { height, state_hash: String::from(std::str::from_utf8(&hash).unwrap()) }).await.is_ok();
            sym::check(sent, 2);
        }
        world(|w| {
            w.added.push((b.0.id, b.0.data));
            w.adding = false;
        });
        settle();
        anyhow::ensure!(b.0.adds, "refused");
        Ok(())
    }
}
struct Ops {
    fails: [bool; 6],
    n: usize,
}
#[async_trait(?Send)]
impl NonConsensusNetworkingOps for Ops {
    type Block = Arrived;
    fn set_block_responder(&mut self, s: Sender<Arrived>) {
        world(|w| w.blocks = Some(s));
    }
    async fn query_block(&mut self, r: &QueryBlockRequest) -> anyhow::Result<()> {
        sym::check(!world(|w| std::mem::replace(&mut w.querying, true)), 3);
        yield_now().await;
        sym::check(r.state_hash.len() == 2, 4);
        let h = r.state_hash.as_bytes();
        let id = (r.height, [h[0], h[1]]);
        self.n += 1;
        world(|w| {
            w.queried.push(id);
            w.querying = false;
        });
        anyhow::ensure!(!self.fails[(self.n - 1) % 6], "not found");
        Ok(())
    }
}

fn waker() -> Waker {
    const V: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &V), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &V)) }
}
type Task = Pin<Box<dyn Future<Output = ()>>>;
/// any task next for `free` steps, then each in turn; true when all finished
fn drive(tasks: Vec<Task>, free: usize) -> bool {
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut ts: Vec<Option<Task>> = tasks.into_iter().map(Some).collect();
    let n = ts.len();
    for step in 0..free + 40 * n {
        let i = if step < free { sym::choose(n as u8) as usize } else { step % n };
        if let Some(t) = &mut ts[i] {
            if t.as_mut().poll(&mut cx).is_ready() {
                ts[i] = None;
            }
        }
        if ts.iter().all(|t| t.is_none()) {
            return true;
        }
    }
    false
}
/// the first branches to poll are any, later ones as written
fn order(n: usize) -> usize {
    if world(|w| {
        w.orders += 1;
        w.orders > 3
    }) {
        return 0;
    }
    sym::choose(n as u8) as usize
}
fn flag() -> bool {
    sym::choose(2) == 1
}

type P = NetworkMessageProcessor<Arrived, Inner, Frontier, Ops>;
fn setup(n: usize, fails: [bool; 6]) -> &'static P {
    tokio::set_order(order);
    world(|w| {
        w.expected = n;
    });
    Box::leak(Box::new(P::new(Frontier(0), Ops { fails, n: 0 })))
}
async fn feed(s: Sender<Arrived>, bs: Vec<Arrived>) {
    for b in bs {
        sym::check(s.send(b).await.is_ok(), 5);
    }
}
/// everything that could be handed on was, once, in order
fn judge(sent: &[Arrived], done: bool) {
    sym::check(done, 6);
    world(|w| {
        let want: Vec<(u8, u64)> = sent.iter().filter(|b| b.converts).map(|b| (b.id, b.data)).collect();
        sym::check(w.added == want, 7);
        sym::check(w.queried == w.asked, 8);
        let asks: usize = sent.iter().filter(|b| b.converts).map(|b| b.asks as usize).sum();
        sym::check(w.asked.len() == asks, 9);
    });
}
/// one sender; blocks that convert or not, are added or not, ask for others or not
fn h_proc_blocks() {
    let p = setup(3, [flag(), false, false, false, false, false]);
    let s = world(|w| w.blocks.take()).unwrap();
    let kind = |id: u8, data: u64| match sym::choose(4) {
        0 => Arrived { id, converts: false, adds: true, asks: 0, data },
        1 => Arrived { id, converts: true, adds: false, asks: 0, data },
        2 => Arrived { id, converts: true, adds: true, asks: 0, data },
        _ => Arrived { id, converts: true, adds: id != 1, asks: 1, data },
    };
    let bs = vec![kind(0, sym::u64()), kind(1, sym::u64()), kind(2, sym::u64())];
    let done = drive(vec![Box::pin(p.run()), Box::pin(feed(s, bs.clone()))], 6);
    judge(&bs, done);
    sym::cover(1);
}
/// many requests by one block, some of which fail: the channel holds one at a time
fn h_proc_requests() {
    let p = setup(2, [flag(), flag(), flag(), flag(), false, false]);
    world(|w| w.slow = flag());
    let s = world(|w| w.blocks.take()).unwrap();
    let bs: Vec<Arrived> = (0..2).map(|id| Arrived { id, converts: true, adds: flag(), asks: sym::choose(3), data: sym::u64() }).collect();
    let done = drive(vec![Box::pin(p.run()), Box::pin(feed(s, bs.clone()))], 4);
    judge(&bs, done);
    sym::cover(1);
}
/// two senders: each one's blocks stay in order, none is lost or doubled
fn h_proc_two() {
    let p = setup(4, [false; 6]);
    world(|w| w.slow = flag());
    let s = world(|w| w.blocks.take()).unwrap();
    let b = |id: u8, asks: u8| Arrived { id, converts: true, adds: true, asks, data: sym::u64() };
    let (x, y) = (vec![b(0, 1), b(1, 0)], vec![b(2, 0), b(3, 1)]);
    let t = s.clone();
    let data = [x[0].data, x[1].data, y[0].data, y[1].data];
    let done = drive(vec![Box::pin(p.run()), Box::pin(feed(s, x)), Box::pin(feed(t, y))], 8);
    sym::check(done, 6);
    world(|w| {
        sym::check(w.added.len() == 4, 10);
        let at = |id: u8| w.added.iter().position(|a| a.0 == id).unwrap_or(9);
        sym::check(w.added.iter().all(|a| a.1 == data[a.0 as usize]), 19);
        sym::check((0..4).all(|i| at(i) < 9) && at(0) < at(1) && at(2) < at(3), 11);
        sym::check(w.queried == w.asked && w.asked.len() == 2, 12);
    });
    sym::cover(1);
}
/// readers get through while blocks are coming in, and stop nothing
fn h_proc_readers() {
    let p = setup(2, [false; 6]);
    world(|w| w.slow = true);
    let s = world(|w| w.blocks.take()).unwrap();
    let b = |id: u8, asks: u8| Arrived { id, converts: true, adds: true, asks, data: sym::u64() };
    let bs = vec![b(0, 1), b(1, 1)];
    let look = async move {
        let f = p.transition_frontier().await;
        let seen = f.0;
        sym::check(!world(|w| w.adding), 13);
        yield_now().await;
        sym::check(f.0 == seen && !world(|w| w.adding), 14);
        drop(f);
        let mut o = p.nonconsensus_ops_mut().await;
        sym::check(!world(|w| w.querying), 15);
        o.fails[5] = true;
        yield_now().await;
        sym::check(!world(|w| w.querying), 16);
        drop(o);
        sym::check(p.nonconsensus_ops().await.fails[5], 17);
        world(|w| w.read += 1);
    };
    let done = drive(vec![Box::pin(p.run()), Box::pin(feed(s, bs.clone())), Box::pin(look)], 8);
    judge(&bs, done);
    sym::check(world(|w| w.read) == 1, 18);
    sym::cover(1);
}

pub fn run(n: &str) -> bool {
    sym::dispatch!(n, h_proc_blocks, h_proc_requests, h_proc_two, h_proc_readers)
}
/// a future that needs nothing from anyone
pub fn now<T>(f: impl Future<Output = T>) -> T {
    let w = waker();
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Ready(t) => t,
        Poll::Pending => {
            sym::check(false, 99);
            unreachable!()
        }
    }
}
