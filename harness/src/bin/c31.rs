//! C31: the parser for files of quadrature rules.
use pbt::*;
use polyquad_parse::{parse2d, parse3d};

type Rule = (Vec<Vec<f64>>, Vec<f64>);

fn parse(dim: usize, text: &str) -> Result<Result<Rule, String>, Stop> {
    let r = catch(|| {
        if dim == 2 {
            parse2d(text).map(|r| (r.points.iter().map(|p| p.to_vec()).collect(), r.weights)).map_err(|e| e.to_string())
        } else {
            parse3d(text).map(|r| (r.points.iter().map(|p| p.to_vec()).collect(), r.weights)).map_err(|e| e.to_string())
        }
    });
    match r {
        Ok(r) => Ok(r),
        Err(p) => Err(Stop::Fail(format!("panic at {}: {}", p.location, p.message))),
    }
}

/// A number with a text that stands for exactly that number
fn gen_number(c: &mut Case) -> (String, f64) {
    let v = match c.int(0, 7) {
        0 => 0.0,
        1 => c.sint(-20, 20) as f64,
        2 | 3 => c.f64(-1.0, 1.0),
        4 => {
            let m = c.magnitude(-320.0, 308.0);
            let s = c.f64(-1.0, 1.0);
            m * s
        }
        5 => f64::from_bits(c.below(u64::MAX)),
        6 => c.grid(64, 64),
        _ => *c.pick(&[f64::MAX, f64::MIN_POSITIVE, 5e-324, -0.0, 1.0, f64::EPSILON]),
    };
    let v = if v.is_finite() { v } else { 0.25 };
    let big = v.abs() > 1e40 || (v != 0.0 && v.abs() < 1e-40);
    let mut s = match c.int(0, 5) {
        0 if !big => format!("{}", v),
        1 if !big => format!("{:.1075}", v).trim_end_matches('0').to_string(),
        2 => format!("{:e}", v),
        3 => format!("{:E}", v),
        4 => format!("{:.25e}", v),
        _ => format!("{:?}", v),
    };
    // The same number, written in another way
    if c.chance(1, 8) && !s.starts_with('-') {
        s.insert(0, '+');
    }
    if c.chance(1, 8) {
        let at = s.find(|ch: char| ch.is_ascii_digit()).unwrap_or(0);
        s.insert_str(at, "000");
    }
    if c.chance(1, 8) && s.starts_with("0.") && s.len() > 2 {
        s.remove(0);
    }
    if c.chance(1, 8) && s.contains('e') && !s.contains("e-") {
        s = s.replace('e', "e+");
    }
    (s, v)
}

const SPACES: [&str; 6] = [" ", "  ", "\t", " \t ", "    ", "\x0c"];

struct Text {
    text: String,
    rule: Rule,
    blanks: usize,
}

fn gen_text(c: &mut Case, dim: usize) -> Text {
    let n = if c.chance(1, 60) { c.int(50, 400) } else { c.int(0, 8) };
    gen_rows(c, dim, n)
}

fn gen_rows(c: &mut Case, dim: usize, n: usize) -> Text {
    let mut t = Text { text: String::new(), rule: (vec![], vec![]), blanks: 0 };
    let eol = *c.pick(&["\n", "\n", "\r\n"]);
    for i in 0..n {
        if c.chance(1, 5) {
            t.blanks += 1;
            t.text.push_str(*c.pick(&["", " ", "\t  ", "   "]));
            t.text.push_str(eol);
        }
        if c.chance(1, 4) {
            t.text.push_str(*c.pick(&SPACES));
        }
        let row: Vec<(String, f64)> = c.vec(dim + 1, gen_number);
        for (k, (s, _)) in row.iter().enumerate() {
            if k > 0 {
                t.text.push_str(*c.pick(&SPACES));
            }
            t.text.push_str(s);
        }
        if c.chance(1, 4) {
            t.text.push_str(*c.pick(&SPACES));
        }
        if i + 1 < n || c.chance(3, 4) {
            t.text.push_str(eol);
        }
        t.rule.0.push(row[..dim].iter().map(|r| r.1).collect());
        t.rule.1.push(row[dim].1);
    }
    t
}

fn round_trip(c: &mut Case) -> Res {
    let dim = c.int(2, 3);
    let t = gen_text(c, dim);
    c.note_debug("text", &t.text);
    c.class_if(t.blanks > 0, "blank lines");
    c.nontrivial_if(t.rule.1.len() > 1);
    match parse(dim, &t.text)? {
        Ok(r) => ensure!(r == t.rule, "read {:?}, written {:?}", r, t.rule),
        Err(e) => fail!("refused: {}", e),
    }
    Ok(())
}

/// Many rows, long lines
fn huge(c: &mut Case) -> Res {
    let dim = c.int(2, 3);
    let part = c.int(1, 12);
    let times = c.size(70_000 / part);
    let gap = c.size(100_000);
    // A part that is repeated
    let t = gen_rows(c, dim, part);
    let mut text = String::new();
    let mut rule = (vec![], vec![]);
    for k in 0..times {
        text.push_str(&t.text);
        if !t.text.ends_with('\n') {
            text.push('\n');
        }
        if k == times / 2 {
            let (before, after) = if c.bool() { (gap, 0) } else { (0, gap) };
            text.push_str(&format!("{}0.5 {}0.25 {}{}\n", " ".repeat(before), " ".repeat(after), "0.125 ".repeat(dim - 1), "\t".repeat(after)));
            rule.0.extend(t.rule.0.iter().cloned());
            rule.1.extend(t.rule.1.iter().copied());
            rule.0.push([0.5, 0.25, 0.125][..dim].to_vec());
            rule.1.push(0.125);
            continue;
        }
        rule.0.extend(t.rule.0.iter().cloned());
        rule.1.extend(t.rule.1.iter().copied());
    }
    c.note(|| format!("{:?} {} times, with a gap of {} in one line", t.text, times, gap));
    c.nontrivial_if(times * part > 1000 || gap > 1000);
    c.class_if(times * part > 1 << 16, "more than 65536 rows");
    match parse(dim, &text)? {
        Ok(r) => {
            ensure_eq!((r.0.len(), r.1.len()), (rule.0.len(), rule.1.len()), "numbers of points and weights");
            for i in 0..r.0.len() {
                ensure!(r.0[i] == rule.0[i] && r.1[i] == rule.1[i], "row {} has {:?} and {:?}, read {:?} and {:?}", i, rule.0[i], rule.1[i], r.0[i], r.1[i]);
            }
        }
        Err(e) => fail!("refused: {}", e),
    }
    Ok(())
}

#[derive(PartialEq, Clone, Copy)]
enum Token {
    Number,
    /// Infinities and NaN: left open
    Open,
    Other,
}

fn classify(s: &str) -> Token {
    let b = s.as_bytes();
    let rest = if b.first().map_or(false, |x| *x == b'+' || *x == b'-') { &b[1..] } else { b };
    let word = String::from_utf8_lossy(rest).to_ascii_lowercase();
    if ["inf", "infinity", "nan"].contains(&word.as_str()) {
        return Token::Open;
    }
    let mut i = 0;
    let mut digits = 0;
    while i < rest.len() && rest[i].is_ascii_digit() {
        i += 1;
        digits += 1;
    }
    if i < rest.len() && rest[i] == b'.' {
        i += 1;
        while i < rest.len() && rest[i].is_ascii_digit() {
            i += 1;
            digits += 1;
        }
    }
    if digits == 0 {
        return Token::Other;
    }
    if i < rest.len() && (rest[i] == b'e' || rest[i] == b'E') {
        i += 1;
        if i < rest.len() && (rest[i] == b'+' || rest[i] == b'-') {
            i += 1;
        }
        let from = i;
        while i < rest.len() && rest[i].is_ascii_digit() {
            i += 1;
        }
        if i == from {
            return Token::Other;
        }
    }
    if i == rest.len() {
        Token::Number
    } else {
        Token::Other
    }
}

/// Whether a text is accepted: None if that is left open
fn accepted(dim: usize, text: &str) -> (Option<bool>, usize) {
    let mut open = false;
    let mut rows = 0;
    for line in text.split('\n') {
        let tokens: Vec<&str> = line.split(|ch: char| [' ', '\t', '\r', '\x0c'].contains(&ch)).filter(|t| !t.is_empty()).collect();
        if tokens.is_empty() {
            continue;
        }
        rows += 1;
        if tokens.len() != dim + 1 {
            return (Some(false), rows);
        }
        for t in tokens {
            // White space that is not ASCII is left open
            if t.chars().any(|ch| ch.is_whitespace()) {
                open = true;
                continue;
            }
            match classify(t) {
                Token::Number => {}
                Token::Open => open = true,
                Token::Other => return (Some(false), rows),
            }
        }
    }
    (if open { None } else { Some(true) }, rows)
}

fn changed(c: &mut Case) -> Res {
    let dim = c.int(2, 3);
    let mut text: Vec<char> = gen_text(c, dim).text.chars().collect();
    let edits = c.int(1, 3);
    for _ in 0..edits {
        let at = c.int(0, text.len());
        match c.int(0, 5) {
            0 if at < text.len() => {
                text.remove(at);
            }
            1 => text.insert(at, *c.pick(&['0', '9', '.', '-', '+', 'e', 'E', ' ', '\n', '\r', '\t', 'x', ',', ';', '_', 'é', '\u{a0}', '\u{0b}', '٣', '\0', 'f', '/', '#', '∞'])),
            2 => {
                let w = *c.pick(&[" 1.5", " abc", "\n0.5\n", " nan", " inf", " 1e", " 0x10", "1,5", " -", " .", "1e400", "# comment", "1_000", "1.0f64", " 1 2 3 4 5 6"]);
                for (k, ch) in w.chars().enumerate() {
                    text.insert(at + k, ch);
                }
            }
            3 if at < text.len() => text[at] = *c.pick(&['0', '9', '.', '-', '+', 'e', 'E', ' ', '\n', 'x', '!', '¼']),
            4 => text.truncate(at),
            _ => {
                let end = (at + c.int(0, 30)).min(text.len());
                let part: Vec<char> = text[at..end].to_vec();
                let to = c.int(0, text.len());
                for (k, ch) in part.into_iter().enumerate() {
                    text.insert(to + k, ch);
                }
            }
        }
    }
    let text: String = text.into_iter().collect();
    c.note_debug("text", &text);
    let (want, rows) = accepted(dim, &text);
    c.class(match want {
        Some(true) => "accepted",
        Some(false) => "refused",
        None => "open",
    });
    c.nontrivial();
    match (parse(dim, &text)?, want) {
        (Ok(_), Some(false)) => fail!("a text that does not have {} numbers per line is accepted", dim + 1),
        (Err(e), Some(true)) => fail!("refused: {}", e),
        (Ok((points, weights)), _) => {
            ensure_eq!((points.len(), weights.len()), (rows, rows), "number of points and of weights for {} rows", rows);
            if want == Some(true) {
                let values: Vec<f64> = text.split(|ch: char| [' ', '\t', '\r', '\x0c', '\n'].contains(&ch)).filter(|t| !t.is_empty()).map(|t| t.parse().unwrap_or(f64::NAN)).collect();
                let got: Vec<f64> = points.iter().zip(&weights).flat_map(|(p, w)| p.iter().copied().chain([*w])).collect();
                ensure!(values == got, "numbers {:?}, read {:?}", values, got);
            }
        }
        _ => {}
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C31",
        rule: "texts with more than one point (round_trip), every case (changed), more than 1000 rows or a line of more than 1000 characters (huge)",
        assumptions: &["whether infinities, NaN and white space that is not ASCII are accepted is left open"],
        clauses: vec![clause("round_trip", 2_000_000, 20_000_000, round_trip), clause("changed", 1_600_000, 16_000_000, changed), clause("huge", 6_000, 120_000, huge)],
    })
}
