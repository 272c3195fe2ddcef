// Natively instrumented run of state-manipulation's entry points. The host functions below stand for
// the NEAR host: they read and write exactly the bytes the contract points them at, so a bad pointer or
// length is an access AddressSanitizer or Miri sees. The resulting storage is compared with a model.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Default)]
struct Host { input: Option<Vec<u8>>, regs: HashMap<u64, Vec<u8>>, store: BTreeMap<Vec<u8>, Vec<u8>>, calls: u64, bytes: u64 }
thread_local! { static HOST: RefCell<Host> = RefCell::new(Host::default()); }

// The host reads guest memory byte by byte with volatile reads so that no access is optimised away.
unsafe fn rd(len: u64, ptr: u64) -> Vec<u8> {
    let p = ptr as usize as *const u8;
    assert!(len < 1 << 32, "HOST: absurd length {}", len);
    let mut v = Vec::with_capacity(len as usize);
    for i in 0..len as usize { v.push(p.add(i).read_volatile()); }
    v
}
unsafe fn get(h: &mut Host, len: u64, ptr: u64) -> Vec<u8> {
    let v = if len == u64::MAX { h.regs.get(&ptr).cloned().expect("HOST: no such register") } else { rd(len, ptr) };
    h.bytes += v.len() as u64; h.calls += 1; v
}
#[no_mangle] pub extern "C" fn input(reg: u64) { HOST.with(|h| { let h = &mut *h.borrow_mut(); h.calls += 1; if let Some(i) = h.input.clone() { h.regs.insert(reg, i); } }) }
#[no_mangle] pub extern "C" fn register_len(reg: u64) -> u64 { HOST.with(|h| { let h = &mut *h.borrow_mut(); h.calls += 1; h.regs.get(&reg).map(|r| r.len() as u64).unwrap_or(u64::MAX) }) }
#[no_mangle] pub unsafe extern "C" fn read_register(reg: u64, ptr: u64) {
    let r = HOST.with(|h| { let h = &mut *h.borrow_mut(); h.calls += 1; h.regs.get(&reg).cloned() }).expect("HOST: no such register");
    let p = ptr as usize as *mut u8;
    for (i, b) in r.iter().enumerate() { p.add(i).write_volatile(*b); }
    HOST.with(|h| h.borrow_mut().bytes += r.len() as u64);
}
#[no_mangle] pub unsafe extern "C" fn storage_write(kl: u64, kp: u64, vl: u64, vp: u64, reg: u64) -> u64 {
    HOST.with(|h| { let h = &mut *h.borrow_mut(); let (k, v) = (get(h, kl, kp), get(h, vl, vp)); match h.store.insert(k, v) { Some(o) => { h.regs.insert(reg, o); 1 } None => 0 } })
}
#[no_mangle] pub unsafe extern "C" fn storage_remove(kl: u64, kp: u64, reg: u64) -> u64 {
    HOST.with(|h| { let h = &mut *h.borrow_mut(); let k = get(h, kl, kp); match h.store.remove(&k) { Some(o) => { h.regs.insert(reg, o); 1 } None => 0 } })
}
#[no_mangle] pub unsafe extern "C" fn storage_read(kl: u64, kp: u64, reg: u64) -> u64 {
    HOST.with(|h| { let h = &mut *h.borrow_mut(); let k = get(h, kl, kp); match h.store.get(&k).cloned() { Some(o) => { h.regs.insert(reg, o); 1 } None => 0 } })
}
#[no_mangle] pub unsafe extern "C" fn storage_has_key(kl: u64, kp: u64) -> u64 { HOST.with(|h| { let h = &mut *h.borrow_mut(); let k = get(h, kl, kp); h.store.contains_key(&k) as u64 }) }
#[no_mangle] pub unsafe extern "C" fn log_utf8(l: u64, p: u64) { HOST.with(|h| { get(&mut h.borrow_mut(), l, p); }) }
#[no_mangle] pub unsafe extern "C" fn panic_utf8(l: u64, p: u64) -> ! { let s = HOST.with(|h| get(&mut h.borrow_mut(), l, p)); panic!("{}", String::from_utf8_lossy(&s)) }
#[no_mangle] pub extern "C" fn panic() -> ! { panic!("guest panic") }
#[no_mangle] pub unsafe extern "C" fn value_return(l: u64, p: u64) { HOST.with(|h| { get(&mut h.borrow_mut(), l, p); }) }

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11 }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn bytes(&mut self, big: usize) -> Vec<u8> {
        let n = match self.below(8) { 0 => 0, 1 => 1, 2 => 2, 3 => 3, 4 => 4 + self.below(30), 5 => 1 << self.below(8), 6 => (1usize << self.below(8)) + 1, _ => self.below(big) };
        let k = self.below(4);
        (0..n).map(|_| match k { 0 => 0, 1 => 255, 2 => b'a' + self.below(26) as u8, _ => self.next() as u8 }).collect()
    }
}
const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn b64(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 { s.push(if i <= c.len() { A[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' }); }
    }
    s
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (n, seed, big, valid_only, only): (u64, u64, usize, bool, Option<u64>) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap(), a[4] == "valid", a.get(5).map(|x| x.parse().unwrap()));
    std::panic::set_hook(Box::new(|_| {}));
    let (mut ok, mut rejected, mut wrong, mut classes) = (0u64, 0u64, 0u64, BTreeSet::new());
    let mut model: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    for i in 0..n {
        if let Some(o) = only { if o != i { continue } }
        let mut r = Rng((seed << 32 | i).wrapping_mul(0x9E3779B97F4A7C15) | 1);
        for _ in 0..4 { r.next(); }
        let rep = r.below(2) == 0;
        let keys: Vec<Vec<u8>> = model.keys().cloned().collect();
        let big = if big >= 1000 && r.below(300) == 0 { big * 40 } else { big };
        let ents: Vec<(Vec<u8>, Vec<u8>)> = (0..r.below(6)).map(|_| (if !keys.is_empty() && r.below(3) == 0 { keys[r.below(keys.len())].clone() } else { r.bytes(24) }, r.bytes(big))).collect();
        let mut enc: Vec<(String, String)> = ents.iter().map(|(k, v)| (b64(k), b64(v))).collect();
        let class = if valid_only { 0 } else { r.below(20) };
        let mut valid = Some(true);
        if class == 1 && !enc.is_empty() { let j = r.below(enc.len()); enc[j].0.push_str(["=", "*", "\u{e9}", "-", "A"][r.below(5)]); valid = None }
        if class == 2 && !enc.is_empty() { let j = r.below(enc.len()); enc[j].1.push_str(["=", "*", "\u{e9}", "-", "A"][r.below(5)]); valid = None }
        let list: Vec<String> = enc.iter().map(|(k, v)| if rep { format!("[\"{}\",\"{}\"]", k, v) } else { format!("\"{}\"", k) }).collect();
        let mut text = format!("{{\"{}\":[{}]}}", if rep { "entries" } else { "keys" }, list.join(",")).into_bytes();
        let mut none = false;
        match class {
            3 => { let l = r.below(text.len()); text.truncate(l); valid = Some(false) }
            4 => { for _ in 0..1 + r.below(3) { let l = r.below(text.len()); text[l] ^= 1 << r.below(8); } valid = None }
            5 => { text = r.bytes(200); valid = None }
            6 => { text = Vec::new(); valid = Some(false) }
            7 => { let l = r.below(text.len()); text.insert(l, r.next() as u8); valid = None }
            8 => { let (l, m) = (r.below(text.len()), r.below(text.len())); let (l, m) = (l.min(m), l.max(m)); text.drain(l..m); valid = None }
            9 => { let d = 1 + r.below(300); text = vec![b'['; d]; valid = Some(false) }
            10 => { none = true; valid = Some(false) }
            11 => { let s = String::from_utf8_lossy(&text).replace('/', "\\/").replace('A', "\\u0041"); text = s.into_bytes(); valid = None }
            12 => { text.extend_from_slice([&b"x"[..], b"\0", b"{}"][r.below(3)]); valid = Some(false) }
            _ => {}
        }
        HOST.with(|h| { let h = &mut *h.borrow_mut(); h.regs.clear(); h.input = if none { None } else { Some(text.clone()) }; h.store = model.clone(); });
        let res = std::panic::catch_unwind(|| if rep { state_manipulation::replace() } else { state_manipulation::clean() });
        let store = HOST.with(|h| h.borrow().store.clone());
        classes.insert(format!("{}|{}|{}|{}|{}", rep, class, res.is_ok(), enc.len(), text.len() / 64));
        if res.is_ok() { ok += 1 } else { rejected += 1 }
        let mut want = model.clone();
        for (k, v) in &ents { if rep { want.insert(k.clone(), v.clone()); } else { want.remove(k); } }
        let bad = match valid { Some(true) => res.is_err() || store != want, Some(false) => res.is_ok(), None => false };
        if bad { wrong += 1; println!("WRONG case {} class {} rep {} ok {} input {:?}", i, class, rep, res.is_ok(), String::from_utf8_lossy(&text[..text.len().min(200)])); }
        if valid == Some(true) && res.is_ok() { model = want; }
        while model.len() > 12 { let k = model.keys().nth(r.below(12)).unwrap().clone(); model.remove(&k); }
    }
    let (c, b) = HOST.with(|h| { let h = h.borrow(); (h.calls, h.bytes) });
    println!("DONE cases {} ok {} rejected {} wrong {} hostcalls {} hostbytes {} distinct {}", n, ok, rejected, wrong, c, b, classes.len());
    if wrong > 0 { std::process::exit(3) }
}
