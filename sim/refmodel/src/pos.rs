//! Line and column of a prefix of a text.

/// Position after consuming `text[..k]`; `text[k]` matters only straight after
/// a carriage return (CR LF is one line end, so after the CR alone the line has
/// not ended yet).
pub fn line_col(text: &[char], k: usize) -> (usize, usize) {
    let (mut line, mut col) = (1, 0);
    for i in 0..k {
        let ends = match text[i] {
            '\n' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}' => true,
            '\r' => text.get(i + 1) != Some(&'\n'),
            _ => false,
        };
        if ends {
            line += 1;
            col = 0;
        } else {
            col += 1;
        }
    }
    (line, col)
}
