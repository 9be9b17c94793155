use proc_macro::{TokenStream, TokenTree};
#[proc_macro_derive(EnumIter)]
pub fn enum_iter(ts: TokenStream) -> TokenStream {
  let mut name = String::new();
  let mut vars: Vec<String> = Vec::new();
  let mut it = ts.into_iter();
  while let Some(t) = it.next() {
    match t {
      TokenTree::Ident(i) if i.to_string() == "enum" => name = it.next().unwrap().to_string(),
      TokenTree::Group(g) if !name.is_empty() => {
        let mut first = true;
        for t in g.stream() {
          match t {
            TokenTree::Ident(i) if first => {
              vars.push(format!("{name}::{i}"));
              first = false;
            }
            TokenTree::Punct(p) if p.as_char() == ',' => first = true,
            _ => {}
          }
        }
      }
      _ => {}
    }
  }
  format!(
    "impl ::strum::IntoEnumIterator for {name} {{ type Iterator = std::vec::IntoIter<{name}>; fn iter() -> Self::Iterator {{ vec![{}].into_iter() }} }}",
    vars.join(",")
  )
  .parse()
  .unwrap()
}
