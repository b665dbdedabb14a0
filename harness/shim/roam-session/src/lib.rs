//! Stand-in for roam-session: connections that go as a script says, in virtual
//! time, with the order in which tasks run taken from the script.
use roam::{CallError, Dispatch, Handle};
use std::fmt;

#[derive(Clone, Debug, Default)]
pub struct HandshakeConfig(());

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SessionError {
    Refused,
    Handshake,
    Lost,
}
impl fmt::Display for SessionError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for SessionError {}

/// Connections the other side opens: none.
pub struct Incoming(());

pub struct Driver<D> {
    link: sim::Link,
    dispatcher: D,
}

pub async fn accept_framed<D: Dispatch>(
    transport: sim::WsTransport,
    _config: HandshakeConfig,
    dispatcher: D,
) -> Result<(Handle, Incoming, Driver<D>), SessionError> {
    let link = transport.handshake().await?;
    Ok((link.handle(), Incoming(()), Driver { link, dispatcher }))
}

impl<D: Dispatch> Driver<D> {
    pub async fn run(self) -> Result<(), SessionError> {
        self.link.run(&self.dispatcher).await
    }
}

pub mod runtime {
    pub async fn sleep(d: std::time::Duration) {
        super::sim::sleep(d).await
    }
}

pub mod sim {
    use super::*;
    use std::any::Any;
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::future::{Future, poll_fn};
    use std::pin::Pin;
    use std::rc::Rc;
    use std::task::{Context, Poll, Waker};
    use std::time::Duration;

    pub type Args = Rc<dyn Fn() -> Box<dyn Any>>;
    /// How one connection goes.
    #[derive(Clone)]
    pub struct Plan {
        pub connects: bool,
        pub shakes: bool,
        /// How many events the server sends before it answers the subscription
        pub before: usize,
        /// The answer; the connection ends without one if there is none
        pub answer: Option<bool>,
        pub events: Vec<Args>,
        pub ends_well: bool,
        /// Milliseconds before every event after the answer, and before the end
        pub pause: u64,
        /// Turns that everything takes
        pub slow: u8,
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Did {
        Connect { url: String, at: u64 },
        Call { method: String, args: String, at: u64 },
        Ended { at: u64 },
    }
    #[derive(Default)]
    struct Sim {
        tasks: Vec<Option<Pin<Box<dyn Future<Output = ()>>>>>,
        born: Vec<Pin<Box<dyn Future<Output = ()>>>>,
        plans: VecDeque<Plan>,
        did: Vec<Did>,
        now: u64,
        timers: Vec<u64>,
        moved: bool,
        after: Option<Rc<dyn Fn()>>,
    }
    thread_local!(static SIM: RefCell<Sim> = RefCell::new(Sim::default()));
    fn sim<R>(f: impl FnOnce(&mut Sim) -> R) -> R {
        SIM.with(|s| f(&mut s.borrow_mut()))
    }

    pub fn spawn_local(f: impl Future<Output = ()> + 'static) {
        sim(|s| {
            s.moved = true;
            s.born.push(Box::pin(f))
        })
    }
    async fn turns(n: u8) {
        let mut left = n;
        poll_fn(|_| {
            sim(|s| s.moved = true);
            if left == 0 {
                return Poll::Ready(());
            }
            left -= 1;
            Poll::Pending
        })
        .await
    }
    async fn until<T>(mut f: impl FnMut() -> Option<T>) -> T {
        poll_fn(|_| match f() {
            Some(x) => {
                sim(|s| s.moved = true);
                Poll::Ready(x)
            }
            None => Poll::Pending,
        })
        .await
    }
    pub async fn sleep(d: Duration) {
        let end = sim(|s| {
            let end = s.now + d.as_millis() as u64;
            s.timers.push(end);
            end
        });
        until(|| sim(|s| (s.now >= end).then_some(()))).await
    }
    async fn pause(ms: u64) {
        if ms > 0 {
            sleep(Duration::from_millis(ms)).await
        }
    }
    /// Runs `start` and whatever it spawns until nothing can go on. `order`
    /// says which task comes next; `after` runs after every event delivered.
    pub fn run(plans: Vec<Plan>, order: &[u8], after: Rc<dyn Fn()>, start: impl FnOnce()) -> Vec<Did> {
        let old = sim(|s| std::mem::replace(s, Sim { plans: plans.into(), after: Some(after), ..Sim::default() }));
        drop(old);
        start();
        let mut k = 0;
        for round in 0.. {
            assert!(round < 100_000, "the client runs on without end");
            sim(|s| {
                let born = std::mem::take(&mut s.born);
                s.tasks.extend(born.into_iter().map(Some));
                s.moved = false;
            });
            let n = sim(|s| s.tasks.len());
            let mut ids: Vec<usize> = (0..n).collect();
            if !order.is_empty() && n > 1 {
                k += 1;
                let o = order[k % order.len()] as usize;
                ids.rotate_left(o % n);
                if o / 16 % 2 == 1 {
                    ids.reverse();
                }
            }
            for i in ids {
                let Some(mut t) = sim(|s| s.tasks[i].take()) else { continue };
                match t.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
                    Poll::Ready(()) => {
                        drop(t);
                        sim(|s| s.moved = true)
                    }
                    Poll::Pending => sim(|s| s.tasks[i] = Some(t)),
                }
            }
            let stop = sim(|s| {
                if s.moved || !s.born.is_empty() {
                    return false;
                }
                match s.timers.iter().copied().filter(|t| *t > s.now).min() {
                    Some(t) => {
                        s.now = t;
                        false
                    }
                    None => true,
                }
            });
            if stop {
                break;
            }
        }
        let old = sim(std::mem::take);
        old.did.clone()
    }

    pub struct WsTransport(Plan);
    impl WsTransport {
        pub async fn connect(url: impl AsRef<str>) -> Result<WsTransport, SessionError> {
            let url = url.as_ref().to_string();
            let plan = sim(|s| {
                let at = s.now;
                s.did.push(Did::Connect { url, at });
                s.plans.pop_front()
            });
            let Some(plan) = plan else { return std::future::pending().await };
            turns(plan.slow).await;
            if plan.connects {
                Ok(WsTransport(plan))
            } else {
                end();
                Err(SessionError::Refused)
            }
        }
        pub(crate) async fn handshake(self) -> Result<Link, SessionError> {
            turns(self.0.slow).await;
            if self.0.shakes {
                Ok(Link(Rc::new(RefCell::new(State { plan: self.0, asked: false, answer: None, open: true }))))
            } else {
                end();
                Err(SessionError::Handshake)
            }
        }
    }
    fn end() {
        sim(|s| s.did.push(Did::Ended { at: s.now }));
    }
    struct State {
        plan: Plan,
        asked: bool,
        answer: Option<bool>,
        open: bool,
    }
    #[derive(Clone)]
    pub struct Link(Rc<RefCell<State>>);
    impl Link {
        pub(crate) fn handle(&self) -> Handle {
            let link = self.clone();
            Handle::new(move |method, args| {
                let link = link.clone();
                Box::pin(async move {
                    let args = match args.downcast::<(String,)>() {
                        Ok(s) => s.0,
                        Err(_) => String::from("?"),
                    };
                    sim(|s| {
                        s.moved = true;
                        s.did.push(Did::Call { method: method.into(), args, at: s.now })
                    });
                    link.0.borrow_mut().asked = true;
                    let answer = until(|| {
                        let s = link.0.borrow();
                        if s.answer.is_some() || !s.open { Some(s.answer) } else { None }
                    })
                    .await;
                    match answer {
                        Some(true) => Ok(Box::new(()) as Box<dyn Any>),
                        Some(false) => Err(CallError::Refused),
                        None => Err(CallError::Closed),
                    }
                })
            })
        }
        pub(crate) async fn run(&self, d: &dyn Dispatch) -> Result<(), SessionError> {
            until(|| self.0.borrow().asked.then_some(())).await;
            let plan = self.0.borrow().plan.clone();
            for (i, e) in plan.events.iter().enumerate() {
                if i == plan.before {
                    self.0.borrow_mut().answer = plan.answer;
                }
                if i >= plan.before {
                    pause(plan.pause).await;
                }
                turns(plan.slow).await;
                d.dispatch("on_event", e()).await.expect("a handler for events");
                let after = sim(|s| s.after.clone());
                if let Some(f) = after {
                    f()
                }
            }
            if self.0.borrow().answer.is_none() {
                self.0.borrow_mut().answer = plan.answer;
            }
            pause(plan.pause).await;
            turns(plan.slow).await;
            self.0.borrow_mut().open = false;
            end();
            if plan.ends_well { Ok(()) } else { Err(SessionError::Lost) }
        }
    }
}
