
// Appended by /verif to the scratch copy that is analysed: token-level driver.
#[allow(dead_code, unused)]
pub mod vharness_tok {
    use crate::core::json::tokenizer::{Token, Tokenizer};
    pub fn observe(_t: &Token, _v: &str) {}
    pub fn failed() {}
    pub fn drive(input: &str) {
        let mut t = match Tokenizer::new(input) {
            Ok(t) => t,
            Err(_) => { failed(); return; }
        };
        loop {
            let v = match t.token { Token::String | Token::Number => t.value(), _ => "" };
            observe(&t.token, v);
            if let Token::Eof = t.token { return; }
            if let Err(_) = t.next() { failed(); return; }
        }
    }
}
