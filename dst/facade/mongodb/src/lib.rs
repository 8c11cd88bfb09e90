//! `mongodb` whose client talks to a database inside the simulation. Options, errors and result types are
//! the real crate's; requests travel through a simulated connection task that may delay, reorder or fail.
#![allow(clippy::all)]
pub use real::*;

use dam_sim_core as sim;
use real::bson::Bson;
use real::error::{Error, Result};
use real::options::*;
use real::results::{InsertManyResult, InsertOneResult};
use serde::Serialize;
use sim::Fault;
use std::borrow::Borrow;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

/// The database's contents, for the oracle.
#[derive(Default)]
pub struct Server {
    pub collections: BTreeMap<(String, String, String), Vec<Bson>>,
    pub created: Vec<(String, String)>,
    pub inserts: u64,
    pub failed: u64,
    pub shutdowns: u64,
    pub use_after_shutdown: u64,
    pub in_flight: u64,
}
pub fn server() -> &'static mut Server {
    sim::data::<Server>("mongodb")
}

struct Reply<T> {
    out: RefCell<Option<Result<T>>>,
    waker: RefCell<Option<Waker>>,
    done: Cell<bool>,
    vc: RefCell<sim::VClock>,
}
unsafe impl<T> Send for Reply<T> {}
unsafe impl<T> Sync for Reply<T> {}
struct Pending<T>(Arc<Reply<T>>);
impl<T> Future for Pending<T> {
    type Output = Result<T>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<T>> {
        sim::point(sim::Op::Db);
        if self.0.done.get() {
            if sim::weak() {
                sim::acquire(&self.0.vc.borrow());
            }
            return Poll::Ready(self.0.out.borrow_mut().take().expect("polled after completion"));
        }
        *self.0.waker.borrow_mut() = Some(cx.waker().clone());
        Poll::Pending
    }
}

/// Sends a request: executed by the server after a while, unless it is answered at once.
fn request<T: 'static>(f: impl FnOnce() -> Result<T> + 'static) -> Pending<T> {
    sim::point(sim::Op::Db);
    let r = Arc::new(Reply {
        out: RefCell::new(None),
        waker: RefCell::new(None),
        done: Cell::new(false),
        vc: Default::default(),
    });
    let theirs = r.clone();
    let delay = if sim::fault(Fault::DbDelay) { 1 + sim::choose(64) as u64 * 20_000 } else { 0 };
    let held = if sim::fault(Fault::DbReorder) { 3_000_000 } else { 0 };
    let body = move || {
        if delay + held > 0 {
            sim::sleep_ns(delay + held);
        }
        sim::point(sim::Op::Db);
        let x = f();
        *theirs.out.borrow_mut() = Some(x);
        if sim::weak() {
            *theirs.vc.borrow_mut() = sim::publish();
        }
        theirs.done.set(true);
        server().in_flight -= 1;
        let w = theirs.waker.borrow_mut().take();
        if let Some(w) = w {
            w.wake();
        }
    };
    server().in_flight += 1;
    if sim::is_calm() {
        body();
    } else {
        sim::spawn("db".into(), Box::new(body));
    }
    Pending(r)
}

#[derive(Clone, Debug)]
pub struct Client {
    uri: String,
    open: Arc<std::sync::atomic::AtomicBool>,
}
impl Client {
    pub async fn with_uri_str(uri: impl AsRef<str>) -> Result<Client> {
        let uri = uri.as_ref().to_string();
        if !uri.starts_with("mongodb://") && !uri.starts_with("mongodb+srv://") {
            return Err(Error::custom("invalid connection string"));
        }
        request(|| Ok(())).await?;
        Ok(Client { uri, open: Arc::new(true.into()) })
    }
    pub fn database(&self, name: &str) -> Database {
        Database { client: self.clone(), name: name.to_string() }
    }
    pub fn database_with_options(&self, name: &str, _: DatabaseOptions) -> Database {
        self.database(name)
    }
    pub async fn shutdown(self) {
        self.open.store(false, std::sync::atomic::Ordering::Relaxed);
        let _ = request(|| {
            server().shutdowns += 1;
            Ok(())
        })
        .await;
    }
    pub async fn shutdown_immediate(self) {
        self.shutdown().await
    }
}
#[derive(Clone, Debug)]
pub struct Database {
    client: Client,
    name: String,
}
impl Database {
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn client(&self) -> &Client {
        &self.client
    }
    pub async fn create_collection(
        &self,
        name: impl AsRef<str>,
        _options: impl Into<Option<CreateCollectionOptions>>,
    ) -> Result<()> {
        let k = (self.client.uri.clone(), self.name.clone(), name.as_ref().to_string());
        request(move || {
            server().created.push((k.1.clone(), k.2.clone()));
            server().collections.entry(k).or_default();
            Ok(())
        })
        .await
    }
    pub fn collection<T>(&self, name: &str) -> Collection<T> {
        Collection { db: self.clone(), name: name.to_string(), _t: PhantomData }
    }
    pub fn collection_with_options<T>(&self, name: &str, _: CollectionOptions) -> Collection<T> {
        self.collection(name)
    }
}
#[derive(Debug)]
pub struct Collection<T> {
    db: Database,
    name: String,
    _t: PhantomData<fn() -> T>,
}
impl<T> Clone for Collection<T> {
    fn clone(&self) -> Self {
        Collection { db: self.db.clone(), name: self.name.clone(), _t: PhantomData }
    }
}
impl<T: Serialize> Collection<T> {
    pub fn name(&self) -> &str {
        &self.name
    }
    pub async fn insert_many(
        &self,
        docs: impl IntoIterator<Item = impl Borrow<T>>,
        options: impl Into<Option<InsertManyOptions>>,
    ) -> Result<InsertManyResult> {
        let o: Option<InsertManyOptions> = options.into();
        let ordered = o.as_ref().and_then(|o| o.ordered).unwrap_or(true);
        let mut v = vec![];
        for d in docs {
            v.push(real::bson::to_bson(d.borrow()).map_err(|e| Error::custom(e.to_string()))?);
        }
        if v.is_empty() {
            return Err(Error::custom("No documents provided to insert_many"));
        }
        let k = (self.db.client.uri.clone(), self.db.name.clone(), self.name.clone());
        let open = self.db.client.open.clone();
        request(move || {
            let s = server();
            if !open.load(std::sync::atomic::Ordering::Relaxed) {
                s.use_after_shutdown += 1;
                return Err(Error::custom("client was shut down"));
            }
            if sim::fault(Fault::DbError) {
                s.failed += 1;
                return Err(Error::custom("injected write error"));
            }
            if !ordered && v.len() > 1 && sim::fault(Fault::DbReorder) {
                // an unordered insert may be applied in any order
                let n = v.len();
                let r = 1 + sim::choose(n as u32 - 1) as usize;
                v.rotate_left(r);
            }
            s.inserts += 1;
            let n = v.len();
            s.collections.entry(k).or_default().extend(v);
            let mut inserted_ids = HashMap::new();
            for i in 0..n {
                inserted_ids.insert(i, Bson::Int64(i as i64));
            }
            // InsertManyResult is non-exhaustive: built through its Deserialize-free constructor
            Ok(many(inserted_ids))
        })
        .await
    }
    pub async fn insert_one(
        &self,
        doc: impl Borrow<T>,
        _options: impl Into<Option<InsertOneOptions>>,
    ) -> Result<InsertOneResult> {
        self.insert_many([doc], None).await?;
        Err(Error::custom("insert_one is not modelled"))
    }
}
fn many(ids: HashMap<usize, Bson>) -> InsertManyResult {
    // The struct is #[non_exhaustive] with one field and no public constructor; it is plain data.
    const _: () = assert!(std::mem::size_of::<InsertManyResult>() == std::mem::size_of::<HashMap<usize, Bson>>());
    unsafe { std::mem::transmute(ids) }
}
