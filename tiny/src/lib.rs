//! A small program that answers every address with the address, `/~env/<hex>` with a setting, and `/~page` with a page.
use vertigo::{dom, get_driver, main, DomNode};

fn setting(name: &str) -> Option<String> {
    let bytes = (0..name.len()).step_by(2).map(|i| name.get(i..i + 2).and_then(|x| u8::from_str_radix(x, 16).ok())).collect::<Option<Vec<u8>>>()?;
    Some(match get_driver().env(String::from_utf8(bytes).ok()?) {
        Some(value) => format!("some:{value}"),
        None => "none".to_string(),
    })
}
#[main]
fn program() -> DomNode {
    get_driver().plains(|url| {
        if let Some(name) = url.strip_prefix("/~env/") {
            return setting(name);
        }
        (!url.starts_with("/~page")).then(|| format!("vp-tiny:{url}"))
    });
    dom! { <html><head/><body>"VP-STAMP-00000000"<p title="a </body> b">"x"</p><script>"var s = '</body>';"</script><i>"end"</i></body></html> }
}
