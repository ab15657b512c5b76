use crate::engine::Prop;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
pub mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c16;
mod c17;
mod c19;

pub fn all() -> Vec<Prop> {
  vec![c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(), c06::prop(), c08::prop(), c09::prop(), c10::prop(), c11::prop(), c12::prop(), c12::prop13(), c16::prop(), c17::prop(), c19::prop()]
}

/// words of the visible text
pub fn words(html: &str) -> Vec<String> {
  let t = match crate::html::parse(html) {
    Ok(n) => crate::html::visible_text(&n),
    Err(e) => panic!("output is not well-formed: {e}"),
  };
  t.split_whitespace().map(|s| s.to_string()).collect()
}

/// lines of the first `<pre>` of the output
pub fn pre_lines(html: &str) -> Vec<String> {
  let t = match crate::html::parse(html) {
    Ok(n) => n,
    Err(e) => panic!("output is not well-formed: {e}"),
  };
  match crate::html::select(&t, |e| e.tag == "pre").first() {
    Some(p) if !p.text().is_empty() => p.text().split('\n').map(|s| s.to_string()).collect(),
    _ => vec![],
  }
}
