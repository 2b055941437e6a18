//! C29 (event queue), C35 (response status).
use enumflags2::BitFlags;
use event_queue::*;
use grafbase_telemetry::graphql::GraphqlResponseStatus as Status;
use std::sync::Arc;
use std::time::Duration;

fn status(n: &str) -> Status {
    let count = wrt::u64(&format!("{n}.count"));
    wrt::assume(count < 1 << 62);
    match wrt::pin(wrt::choose(&format!("{n}.kind"), 4) as u64) {
        0 => Status::Success,
        1 => Status::FieldError { count, data_is_null: wrt::flag(&format!("{n}.null")) },
        2 => Status::RequestError { count },
        _ => Status::RefusedRequest,
    }
}

fn rank(s: &Status) -> u8 {
    match s {
        Status::Success => 0,
        Status::FieldError { .. } => 1,
        Status::RequestError { .. } => 2,
        Status::RefusedRequest => 3,
    }
}

fn same(a: &Status, b: &Status) -> bool {
    match (a, b) {
        (Status::Success, Status::Success) | (Status::RefusedRequest, Status::RefusedRequest) => true,
        (Status::FieldError { count: a, data_is_null: x }, Status::FieldError { count: b, data_is_null: y }) => a == b && x == y,
        (Status::RequestError { count: a }, Status::RequestError { count: b }) => a == b,
        _ => false,
    }
}

fn text(s: &Status) -> &'static str {
    match s {
        Status::Success => "SUCCESS",
        Status::FieldError { data_is_null: true, .. } => "FIELD_ERROR_NULL_DATA",
        Status::FieldError { .. } => "FIELD_ERROR",
        Status::RequestError { .. } => "REQUEST_ERROR",
        Status::RefusedRequest => "REFUSED_REQUEST",
    }
}

/// The worst of the parts, in any order and grouping; field errors add up.
pub fn c35_union() {
    let (a, b, c) = (status("a"), status("b"), status("c"));
    for s in [&a, &b, &c] {
        wrt::ensure!(s.as_str() == text(s), "as_str");
        wrt::ensure!(s.is_success() == (rank(s) == 0), "is_success");
        wrt::ensure!(s.is_request_error() == (rank(s) == 2), "is_request_error");
        wrt::ensure!(same(&s.union(Status::Success), s) && same(&Status::Success.union(*s), s), "success is neutral");
    }
    let ab = a.union(b);
    let ba = b.union(a);
    wrt::ensure!(rank(&ab) == rank(&a).max(rank(&b)), "{a:?} and {b:?} give {ab:?}");
    wrt::ensure!(rank(&ba) == rank(&ab), "order changes the outcome: {ab:?} or {ba:?}");
    match (a, b, ab, ba) {
        (Status::FieldError { count: x, data_is_null: p }, Status::FieldError { count: y, data_is_null: q }, Status::FieldError { count, data_is_null }, Status::FieldError { count: count2, .. }) => {
            wrt::ensure!(count == x + y && count2 == count, "error counts {x} and {y} give {count}");
            wrt::ensure!(data_is_null == p || data_is_null == q, "null data made up");
            wrt::reach(1);
        }
        (_, _, Status::RequestError { count }, _) => {
            let n = |s: &Status| if let Status::RequestError { count } = s { *count } else { 0 };
            wrt::ensure!(count >= n(&a).min(n(&b)) && count <= n(&a) + n(&b), "request error count");
            wrt::reach(2);
        }
        _ => {}
    }
    let l = ab.union(c);
    let r = a.union(b.union(c));
    wrt::ensure!(same(&l, &r), "grouping changes the outcome: {l:?} or {r:?}");
    wrt::reach(3);
}

const KINDS: [EventFilterType; 4] = [EventFilterType::Operation, EventFilterType::SubgraphRequest, EventFilterType::HttpRequest, EventFilterType::Extension];

fn cache(i: u64) -> CacheStatus {
    [CacheStatus::Hit, CacheStatus::PartialHit, CacheStatus::Miss][i as usize]
}

/// What was pushed, to be compared with what comes out.
enum Want {
    Op { name: Option<&'static str>, doc: bool, cached: bool, deprecated: bool, complexity: Option<u64>, status: Status, ty: u64, prepare: Option<u64>, duration: u64 },
    Sub { url: &'static str, cache: u64, errors: bool, execs: Vec<u64>, duration: u64 },
    Http { url: &'static str, method: http::Method, status: u16 },
    Ext { data: [u8; 3], name: &'static str },
}

fn push(q: &EventQueue, k: usize, clock: &mut u64, wanted: &dyn Fn(usize) -> bool, out: &mut Vec<Want>, constructed: &mut u32, rich: bool) {
    let nm = |s: &str| format!("{s}{k}");
    let kind = wrt::pin(wrt::choose(&nm("kind"), 4) as u64) as usize;
    // time passes by an arbitrary amount
    let step = |clock: &mut u64, n: &str| {
        let d = if rich { wrt::u32(&nm(n)) as u64 } else { 1000 };
        *clock += d;
        wrt::set_clock(*clock);
        d
    };
    let doc: Arc<str> = Arc::from("query { a }");
    match kind {
        0 => {
            let ty = wrt::choose(&nm("ty"), 3) as u64;
            let tys = [OperationType::Query, OperationType::Mutation, OperationType::Subscription];
            let mut b = if ty == 0 { ExecutedOperation::builder_with_default() } else { ExecutedOperation::builder(tys[ty as usize]) };
            let name = if wrt::flag(&nm("named")) { Some("N") } else { None };
            if let Some(n) = name {
                b.name(n);
            }
            let d1 = step(clock, "t1");
            let prepare = if rich && wrt::flag(&nm("prep")) { b.track_prepare(); Some(d1) } else { None };
            let d2 = step(clock, "t2");
            let has_doc = rich && wrt::flag(&nm("doc"));
            if has_doc {
                b.document(&doc);
            }
            let cached = wrt::flag(&nm("cached"));
            b.cached_plan(cached);
            let deprecated = wrt::flag(&nm("depr"));
            b.has_deprecated_fields(deprecated);
            let complexity = if rich && wrt::flag(&nm("cpl")) { Some(wrt::u64(&nm("complexity"))) } else { None };
            if let Some(c) = complexity {
                b.complexity(c);
            }
            let st = if rich { status(&nm("st")) } else { Status::FieldError { count: k as u64, data_is_null: false } };
            b.status(st);
            q.push_operation(b);
            if wanted(0) {
                out.push(Want::Op { name, doc: has_doc, cached, deprecated, complexity, status: st, ty, prepare, duration: d1 + d2 });
            }
        }
        1 => {
            let url = ["http://a", "http://b"][k % 2];
            let mut b = ExecutedSubgraphRequest::builder("sub", http::Method::POST, url);
            let c = wrt::pin(wrt::choose(&nm("cache"), 3) as u64);
            b.cache_status(cache(c));
            let mut execs = vec![];
            if rich {
                for e in 0..wrt::pin(wrt::choose(&nm("execs"), 3) as u64) {
                    let x = wrt::pin(wrt::choose(&nm(&format!("exec{e}_")), 4) as u64);
                    execs.push(x);
                    b.push_execution(match x {
                        0 => RequestExecution::InternalServerError,
                        1 => RequestExecution::RequestError,
                        2 => RequestExecution::RateLimited,
                        _ => {
                            let mut r = SubgraphResponse::builder();
                            r.status(http::StatusCode::from_u16(200 + e as u16).unwrap());
                            RequestExecution::Response(r.build())
                        }
                    });
                }
            }
            let st = if rich { status(&nm("st")) } else { Status::Success };
            b.graphql_response_status(st);
            let d = step(clock, "t1");
            q.push_subgraph_request(b);
            if wanted(1) {
                out.push(Want::Sub { url, cache: c, errors: rank(&st) != 0, execs, duration: d });
            }
        }
        2 => {
            let url = ["http://c", "http://d"][k % 2];
            let method = if wrt::flag(&nm("get")) { http::Method::GET } else { http::Method::POST };
            let code = 100 + wrt::u16(&nm("code")) % 900;
            q.push_http_request(ExecutedHttpRequest::builder(url).method(method.clone()).response_status(http::StatusCode::from_u16(code).unwrap()));
            if wanted(2) {
                out.push(Want::Http { url, method, status: code });
            }
        }
        _ => {
            let data: [u8; 3] = wrt::bytes(&nm("data"));
            let name = ["e0", "e1", "e2"][k % 3];
            let fails = wrt::flag(&nm("fails"));
            let before = *constructed;
            let r: Result<(), u8> = q.push_extension_event(|| {
                *constructed += 1;
                if fails {
                    return Err(7);
                }
                Ok(ExtensionEvent { extension_name: "ext".into(), event_name: name.into(), data: data.to_vec() })
            });
            if wanted(3) {
                wrt::ensure!(*constructed == before + 1, "constructor of a subscribed event not run exactly once");
                wrt::ensure!(r == if fails { Err(7) } else { Ok(()) }, "constructor failure not reported");
                if !fails {
                    out.push(Want::Ext { data, name });
                }
            } else {
                wrt::ensure!(*constructed == before, "constructor of a filtered-out event was run");
                wrt::ensure!(r == Ok(()), "filtered-out event failed");
            }
        }
    }
}

fn compare(e: Event, w: &Want) {
    match (e, w) {
        (Event::Operation(o), Want::Op { name, doc, cached, deprecated, complexity, status, ty, prepare, duration }) => {
            wrt::ensure!(o.name.as_deref() == *name, "operation name");
            wrt::ensure!(&*o.document == if *doc { "query { a }" } else { "" }, "document");
            wrt::ensure!(o.cached_plan == *cached && o.has_deprecated_fields == *deprecated, "operation flags");
            wrt::ensure!(o.complexity == *complexity, "complexity");
            wrt::ensure!(same(&o.status, status), "status");
            let t = match o.operation_type { OperationType::Query => 0, OperationType::Mutation => 1, OperationType::Subscription => 2 };
            wrt::ensure!(t == *ty, "operation type");
            wrt::ensure!(o.prepare_duration == Duration::from_nanos(prepare.unwrap_or(0)), "prepare duration");
            wrt::ensure!(o.duration == Duration::from_nanos(*duration), "duration");
            wrt::reach(1);
        }
        (Event::Subgraph(s), Want::Sub { url, cache, errors, execs, duration }) => {
            wrt::ensure!(s.subgraph_name == "sub" && s.url == *url && s.method == http::Method::POST, "subgraph request");
            wrt::ensure!(s.cache_status as u8 as u64 == *cache, "cache status");
            wrt::ensure!(s.has_errors == *errors, "has_errors");
            wrt::ensure!(s.executions.len() == execs.len(), "number of executions");
            for (i, (a, b)) in s.executions.iter().zip(execs).enumerate() {
                let x = match a {
                    RequestExecution::InternalServerError => 0,
                    RequestExecution::RequestError => 1,
                    RequestExecution::RateLimited => 2,
                    RequestExecution::Response(r) => {
                        wrt::ensure!(r.status.as_u16() == 200 + i as u16, "execution status");
                        3
                    }
                };
                wrt::ensure!(x == *b, "execution {i}");
            }
            wrt::ensure!(s.total_duration == Duration::from_nanos(*duration), "subgraph duration");
            wrt::reach(2);
        }
        (Event::Http(h), Want::Http { url, method, status }) => {
            wrt::ensure!(h.url == *url && h.method == *method && h.response_status.as_u16() == *status, "http request");
            wrt::reach(3);
        }
        (Event::Extension(x), Want::Ext { data, name }) => {
            wrt::ensure!(x.extension_name == "ext" && x.event_name == *name && x.data == data, "extension event");
            wrt::reach(4);
        }
        (e, _) => wrt::failed(&format!("wrong event came out: {e:?}")),
    }
}

fn queue(steps: u32, rich: bool, interleave: bool) {
    let mut clock = 1_700_000_000_000_000_000u64;
    wrt::set_clock(clock);
    // none, all, or any subset of the kinds
    let sel = wrt::pin(wrt::choose("filter", 18) as u64);
    let filter = match sel {
        0 => None,
        1 => Some(EventFilter::All),
        n => Some(EventFilter::Types(KINDS.iter().enumerate().filter(|(i, _)| (n - 2) >> i & 1 == 1).map(|(_, k)| BitFlags::from(*k)).fold(BitFlags::empty(), |a, b| a | b))),
    };
    let wanted = move |kind: usize| match sel { 0 => false, 1 => true, n => (n - 2) >> kind & 1 == 1 };
    let q = if sel == 0 && wrt::flag("default") { EventQueue::default() } else { EventQueue::new(filter) };
    let mut want = vec![];
    let mut next = 0;
    let mut constructed = 0;
    for k in 0..steps as usize {
        push(&q, k, &mut clock, &wanted, &mut want, &mut constructed, rich);
        if interleave && wrt::flag(&format!("pop{k}")) {
            match q.pop() {
                Some(e) => {
                    wrt::ensure!(next < want.len(), "an event nobody subscribed to: {e:?}");
                    compare(e, &want[next]);
                    next += 1;
                }
                None => wrt::ensure!(next == want.len(), "event lost"),
            }
        }
    }
    while let Some(e) = q.pop() {
        wrt::ensure!(next < want.len(), "an event too many: {e:?}");
        compare(e, &want[next]);
        next += 1;
    }
    wrt::ensure!(next == want.len(), "{} events lost", want.len() - next);
    wrt::observe("events", &[next as u8]);
    wrt::reach(5);
}

/// Histories of pushes and pops under every filter.
pub fn c29_history() {
    queue(wrt::param(0), false, true)
}

/// One event of any kind with arbitrary content.
pub fn c29_content() {
    queue(1, true, false)
}

/// Long histories (the queue stores events in blocks of 31): one kind, every filter.
pub fn c29_long() {
    let n = wrt::param(0) as usize;
    let all = wrt::flag("all");
    let q = EventQueue::new(Some(if all { EventFilter::All } else { EventFilter::Types(EventFilterType::Extension.into()) }));
    let data: [u8; 3] = wrt::bytes("data");
    let drop = wrt::choose("drop", 100) as usize;
    let (mut pushed, mut popped) = (0u8, 0u8);
    for k in 0..n {
        let _ = q.push_extension_event::<()>(|| Ok(ExtensionEvent { extension_name: "x".into(), event_name: "y".into(), data: vec![k as u8, data[k % 3]] }));
        pushed += 1;
        if k == drop {
            let Some(Event::Extension(e)) = q.pop() else { wrt::failed("event lost") };
            wrt::ensure!(e.data == [popped, data[popped as usize % 3]], "event {popped} out of order");
            popped += 1;
        }
    }
    while let Some(e) = q.pop() {
        let Event::Extension(e) = e else { wrt::failed("kind") };
        wrt::ensure!(e.data == [popped, data[popped as usize % 3]], "event {popped} out of order");
        popped += 1;
    }
    wrt::ensure!(pushed == popped, "{pushed} pushed, {popped} popped");
    wrt::reach(1);
}

wrt::checks! { c35_union, c29_history, c29_content, c29_long }
