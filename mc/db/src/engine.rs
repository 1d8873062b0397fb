//! Explicit-state exploration of the real database: states are committed
//! database contents, transitions are operations of GroveDB.
use std::{
    collections::HashSet,
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
};

use grovedb::GroveDb;
use kit::{Ctx, Res};
use rocksdb::{model as mem, Snapshot};

use crate::{
    audit::{audit, Audit},
    model::{run, v, Model, Op, Out},
};

#[derive(Clone)]
pub struct State {
    pub snap: Snapshot,
    pub model: Model,
    pub audit: Audit,
    pub hist: Vec<usize>,
}

pub struct World {
    pub name: &'static str,
    pub init: Vec<Op>,
    pub ops: Vec<Op>,
    pub depth: usize,
    pub max_states: usize,
}

pub fn fresh_path() -> String {
    static N: AtomicU64 = AtomicU64::new(0);
    format!("/vmem/{}", N.fetch_add(1, Ordering::Relaxed))
}

/// A database holding a given content, removed when dropped.
pub struct Db {
    pub path: String,
    pub db: Option<GroveDb>,
}
impl Db {
    pub fn new() -> Db {
        let path = fresh_path();
        let db = GroveDb::open(&path).expect("open");
        Db {
            path,
            db: Some(db),
        }
    }
    pub fn at(s: &Snapshot) -> Db {
        let path = fresh_path();
        mem::restore(&path, s);
        let db = GroveDb::open(&path).expect("open");
        Db {
            path,
            db: Some(db),
        }
    }
    pub fn snap(&self) -> Snapshot {
        mem::snapshot(&self.path).unwrap()
    }
}
impl std::ops::Deref for Db {
    type Target = GroveDb;
    fn deref(&self) -> &GroveDb {
        self.db.as_ref().unwrap()
    }
}
impl Drop for Db {
    fn drop(&mut self) {
        self.db = None;
        mem::remove(&self.path);
    }
}

pub fn snap_bytes(s: &Snapshot) -> Vec<u8> {
    let mut out = vec![];
    for (cf, k, v) in s.entries() {
        out.push(cf.len() as u8);
        out.extend(cf.as_bytes());
        out.extend((k.len() as u32).to_le_bytes());
        out.extend(k);
        out.extend((v.len() as u32).to_le_bytes());
        out.extend(v);
    }
    out
}

pub fn audit_model(s: &Snapshot, m: &Model) -> Result<Audit, String> {
    let a = audit(s, &|p, _| m.half(p))?;
    m.agrees(&a)?;
    Ok(a)
}

pub fn initial(init: &[Op]) -> Result<State, String> {
    let db = Db::new();
    let mut st = State {
        snap: db.snap(),
        model: Model::default(),
        audit: Audit::default(),
        hist: vec![],
    };
    st.audit = audit_model(&st.snap, &st.model)?;
    for op in init {
        st = step(&st, op, &db)?.1;
        if st.hist.is_empty() {}
    }
    Ok(st)
}

/// Runs one operation on `db` (which holds `st`), compares it with the model
/// and audits what is stored afterwards.
pub fn step(st: &State, op: &Op, db: &Db) -> Result<(Out, State), String> {
    let (got, err) = run(db, op, None);
    judge(st, op, db, got, err.map(|e| format!("{e:?}")))
}

pub fn judge(
    st: &State,
    op: &Op,
    db: &Db,
    got: Out,
    err: Option<String>,
) -> Result<(Out, State), String> {
    let after = db.snap();
    let mut model = st.model.clone();
    let mut want = model.apply(&st.audit, op);
    if got == Out::Err && want != Out::Err && model.partial_overflow() {
        // sums are added up in the order of the tree's shape, so a total
        // that fits can be refused when one of its parts does not
        model = st.model.clone();
        want = Out::Err;
    }
    if got != want {
        return Err(format!(
            "returned {got:?}{}, expected {want:?}",
            err.map_or(String::new(), |e| format!(" ({e})"))
        ));
    }
    if got == Out::Err && after != st.snap {
        return Err(format!(
            "failed ({}) but changed what is stored",
            err.unwrap_or_default()
        ));
    }
    let audit = audit_model(&after, &model).map_err(|e| format!("after the operation: {e}"))?;
    let root = db
        .root_hash(None, v())
        .unwrap()
        .map_err(|e| format!("root_hash: {e:?}"))?;
    if root != audit.root_hash {
        return Err(format!(
            "root_hash is {} but the contents hash to {}",
            kit::hex(&root),
            kit::hex(&audit.root_hash)
        ));
    }
    Ok((
        got,
        State {
            snap: after,
            model,
            audit,
            hist: st.hist.clone(),
        },
    ))
}

/// Breadth-first exploration; `visit` is called on every new state.
pub fn explore(ctx: &Ctx, w: &World, visit: &(dyn Fn(&State) -> Res + Sync)) {
    let seen: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let mut first = None;
    ctx.case(
        || format!("{}: initial state", w.name),
        || {
            let s = initial(&w.init)?;
            visit(&s)?;
            first = Some(s);
            Ok(())
        },
    );
    let Some(first) = first else { return };
    let b = snap_bytes(&first.snap);
    ctx.state(&b);
    seen.lock().unwrap().insert(kit::fnv(&b));
    let mut frontier = vec![first];
    let mut depth = 0;
    let mut total = 1usize;
    let mut cut = false;
    while depth < w.depth && !frontier.is_empty() {
        let next: Mutex<Vec<State>> = Mutex::new(vec![]);
        let last = depth + 1 == w.depth;
        ctx.par(&frontier, |st| {
            for (i, op) in w.ops.iter().enumerate() {
                ctx.step();
                ctx.case(
                    || {
                        let mut s = w.name.to_string();
                        for h in &st.hist {
                            s += &format!("; {}", w.ops[*h].show());
                        }
                        format!("{s}; {}", op.show())
                    },
                    || {
                        let db = Db::at(&st.snap);
                        let (out, mut new) = step(st, op, &db)?;
                        ctx.outcome(match out {
                            Out::Err => "refused",
                            _ => "done",
                        });
                        if new.snap == st.snap {
                            return Ok(());
                        }
                        let b = snap_bytes(&new.snap);
                        ctx.state(&b);
                        if seen.lock().unwrap().insert(kit::fnv(&b)) {
                            new.hist.push(i);
                            visit(&new)?;
                            if !last {
                                next.lock().unwrap().push(new);
                            }
                        }
                        Ok(())
                    },
                );
            }
        });
        frontier = next.into_inner().unwrap();
        // a deterministic order, whatever the threads did
        frontier.sort_by(|a, b| a.hist.cmp(&b.hist));
        total += frontier.len();
        if total > w.max_states && depth + 1 < w.depth {
            cut = true;
            break;
        }
        depth += 1;
    }
    ctx.bound(format!(
        "{}: every sequence of up to {} of {} operations{}",
        w.name,
        if cut { depth + 1 } else { w.depth },
        w.ops.len(),
        if frontier.is_empty() && !cut && depth < w.depth {
            " (all reachable states)"
        } else {
            ""
        }
    ));
}
