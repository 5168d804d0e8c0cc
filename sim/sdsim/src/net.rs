//! The simulated network: credential-checking servers behind the reqwest seam.
//! The reply to a request is a function of the run's net seed and of what the
//! request asks (url and credential), plus time windows of outage. It can be
//! answered, answered late, refused, reset, or never answered.
use crate::exec;
use crate::plan::*;
use reqwest::{Kind as EK, StatusCode, WireRequest, WireResponse};
use ring::{digest, hmac};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct NetRec {
    pub url: String,
    pub method: String,
    pub headers: Vec<(String, String)>,
    pub body: String,
    pub timeout_ms: Option<u64>,
    pub t0: u64,
    pub t1: u64,
    pub wall: i64,
    /// http status, or 0 = no reply
    pub status: u16,
    pub err: String,
    pub cred: String,
    /// the credential could be authenticated (AWS: signature is right)
    pub sig: String,
}

fn h(seed: u64, parts: &[&str]) -> u64 {
    let mut x = seed ^ 0x51ed_270b_9f62_a1c5;
    for p in parts {
        for b in p.bytes() {
            x = detsim::rng::mix(x ^ b as u64);
        }
        x = detsim::rng::mix(x ^ 0x100);
    }
    x
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fate {
    Reply(u16, u64),
    Connect,
    Reset(u64),
    Never,
}
pub fn fate(n: &NetSpec, url: &str, cred: &str, t: u64) -> Fate {
    for (a, b) in &n.outages {
        if t >= *a && t < *b {
            return Fate::Connect;
        }
    }
    let x = h(n.seed, &[url, cred]);
    let tot: u64 = n.w.iter().map(|w| *w as u64).sum::<u64>().max(1);
    let mut k = x % tot;
    let mut pick = 0;
    for (i, w) in n.w.iter().enumerate() {
        if k < *w as u64 {
            pick = i;
            break;
        }
        k -= *w as u64;
    }
    let y = detsim::rng::mix(x);
    let delay = (y >> 8) % (n.max_delay_ms.max(1) * 1_000_000);
    let code = |v: &[u16]| v[(y % v.len() as u64) as usize];
    match pick {
        0 => Fate::Reply(code(&[200, 200, 201, 204, 299]), delay / 8),
        1 => Fate::Reply(code(&[400, 401, 403, 403, 404, 429, 499]), delay / 8),
        2 => Fate::Reply(code(&[500, 502, 503, 599]), delay / 8),
        3 => Fate::Reply(code(&[301, 302, 304, 100 + 2, 418, 300]), delay / 8),
        4 => Fate::Connect,
        5 => Fate::Reset(delay / 8),
        6 => Fate::Reply(code(&[200, 403, 500, 200]), delay),
        _ => Fate::Never,
    }
}

pub fn sha(b: &[u8]) -> String {
    hex(digest::digest(&digest::SHA256, b).as_ref())
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn mac(k: &[u8], d: &[u8]) -> Vec<u8> {
    hmac::sign(&hmac::Key::new(hmac::HMAC_SHA256, k), d).as_ref().to_vec()
}
/// AWS signature version 4, as the server side computes it.
pub fn sigv4(secret: &str, hd: &[(String, String)], signed: &str, scope: &str, path: &str, body: &str) -> Option<String> {
    let get = |k: &str| hd.iter().find(|(a, _)| a.eq_ignore_ascii_case(k)).map(|(_, v)| v.clone());
    let date = get("x-amz-date")?;
    let mut canon = String::new();
    for k in signed.split(';') {
        canon.push_str(&format!("{}:{}\n", k, get(k)?.trim()));
    }
    let req = format!("POST\n{}\n\n{}\n{}\n{}", path, canon, signed, sha(body.as_bytes()));
    let sts = format!("AWS4-HMAC-SHA256\n{}\n{}\n{}", date, scope, sha(req.as_bytes()));
    let mut k = mac(format!("AWS4{}", secret).as_bytes(), scope.split('/').next()?.as_bytes());
    for p in scope.split('/').skip(1) {
        k = mac(&k, p.as_bytes());
    }
    Some(hex(&mac(&k, sts.as_bytes())))
}
/// (access key, scope, signed headers, signature) of an Authorization header
pub fn parse_auth(a: &str) -> Option<(String, String, String, String)> {
    let a = a.strip_prefix("AWS4-HMAC-SHA256 Credential=")?;
    let (cred, rest) = a.split_once(",SignedHeaders=")?;
    let (signed, sig) = rest.split_once(",Signature=")?;
    let (id, scope) = cred.split_once('/')?;
    Some((id.into(), scope.into(), signed.into(), sig.into()))
}

pub fn transport(r: WireRequest) -> Result<WireResponse, EK> {
    let w = exec::world();
    let old = detsim::alloc::set_tag(exec::HARNESS);
    let t0 = detsim::sched::now_ns();
    let url = r.url.as_str().to_string();
    let headers: Vec<(String, String)> = r
        .headers
        .iter()
        .map(|(k, v)| (k.as_str().to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned()))
        .collect();
    let body = String::from_utf8_lossy(&r.body).into_owned();
    let auth = headers.iter().find(|(k, _)| k == "authorization").map(|(_, v)| v.clone());
    let mut sig = String::new();
    let cred = match auth.as_deref().and_then(parse_auth) {
        Some((id, scope, signed, s)) => {
            let mut found = None;
            for sec in &w.plan.net.secrets {
                if sigv4(sec, &headers, &signed, &scope, r.url.path(), &body).as_deref() == Some(s.as_str()) {
                    found = Some(sec.clone());
                }
            }
            match found {
                Some(x) => {
                    sig = "ok".into();
                    format!("{}|{}", id, x)
                }
                None => {
                    sig = "bad".into();
                    format!("{}|?", id)
                }
            }
        }
        // whatever the headers carry identifies the credential
        None => {
            let mut v: Vec<String> =
                headers.iter().filter(|(k, v)| !(k == "accept" && v == "*/*")).map(|(k, v)| format!("{}={}", k, v)).collect();
            v.sort();
            v.join("&")
        }
    };
    let f = fate(&w.plan.net, &url, &cred, t0);
    let to = r.timeout.map(|d| d.as_nanos() as u64);
    let lim = to.unwrap_or(3_600_000_000_000);
    let (wait, res): (u64, Result<u16, EK>) = match f {
        Fate::Reply(c, d) if d < lim => (d, Ok(c)),
        Fate::Reset(d) if d < lim => (d, Err(EK::Request)),
        Fate::Connect => (1_000_000.min(lim), Err(EK::Connect)),
        _ => (lim, Err(EK::Timeout)),
    };
    detsim::alloc::set_tag(old);
    if wait > 0 {
        detsim::sched::sleep_ns(wait);
    }
    let old = detsim::alloc::set_tag(exec::HARNESS);
    w.net.lock().unwrap().push(NetRec {
        url,
        method: r.method.as_str().to_string(),
        headers,
        body,
        timeout_ms: r.timeout.map(|d| d.as_millis() as u64),
        t0,
        t1: detsim::sched::now_ns(),
        wall: detsim::sched::wall_s(),
        status: *res.as_ref().unwrap_or(&0),
        err: res.as_ref().err().map(|e| format!("{:?}", e)).unwrap_or_default(),
        cred,
        sig,
    });
    detsim::alloc::set_tag(old);
    res.map(|c| WireResponse { status: StatusCode::from_u16(c).unwrap(), headers: Default::default(), body: vec![] })
}
