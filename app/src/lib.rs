mod codec;
mod host;
mod insp;
mod mem;
mod n;
mod page;
mod pay;
mod rx;
use n::N;
use vertigo::{main, DomNode};

/// The page: the boot request (["boot", setup operations, root node]) given before the start, or read from the address.
#[main]
fn app() -> DomNode {
    let boot = page::boot().or_else(from_address).expect("harness: no boot program");
    rx::exec_list(boot.at(1).l(), None);
    page::node(boot.at(2), &[])
}

/// the program in the parameter `p` of the address: bytes of the exchange format, four bits per letter
fn from_address() -> Option<N> {
    let url = host::address();
    let rest = &url[url.find("?p=")? + 3..];
    let digits: Vec<u8> = rest.bytes().take_while(|b| (b'a'..=b'p').contains(b)).map(|b| b - b'a').collect();
    let bytes: Vec<u8> = digits.chunks_exact(2).map(|d| d[0] * 16 + d[1]).collect();
    Some(N::decode(&bytes))
}

#[no_mangle]
pub extern "C" fn vp_alloc(len: u32) -> u32 {
    let v: Vec<u8> = vec![0; len.max(1) as usize];
    Box::leak(v.into_boxed_slice()).as_mut_ptr() as u32
}

/// Runs one request; the answer is returned as (pointer << 32 | length), freed by `vp_free`.
#[no_mangle]
pub extern "C" fn vp_exec(ptr: u32, len: u32) -> u64 {
    let buf = unsafe { Vec::from_raw_parts(ptr as *mut u8, len as usize, len.max(1) as usize) };
    let req = N::decode(&buf);
    let res = dispatch(&req);
    let mut out = Vec::new();
    res.encode(&mut out);
    let out = out.into_boxed_slice();
    let l = out.len() as u64;
    let p = Box::leak(out).as_mut_ptr() as u32 as u64;
    (p << 32) | l
}

#[no_mangle]
pub extern "C" fn vp_free(ptr: u32, len: u32) {
    drop(unsafe { Vec::from_raw_parts(ptr as *mut u8, len as usize, len as usize) });
}

fn dispatch(req: &N) -> N {
    match req.at(0).s() {
        "rx" => {
            rx::exec_list(req.at(1).l(), None);
            rx::take_log()
        }
        "toks" => rx::toks(),
        "codec" => codec::codec(req),
        "decode" => codec::decode(req),
        "hashes" => codec::hashes(req),
        "log" => rx::take_log(),
        "inspq" => insp::fragment(!req.at(1).is_null()),
        "boot" => {
            page::set_boot(req.clone());
            N::Null
        }
        "mem" => {
            let (bytes, blocks) = mem::live();
            nl![bytes, blocks]
        }
        other => panic!("harness: request {other}"),
    }
}
