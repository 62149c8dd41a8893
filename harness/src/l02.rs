//! Length octets: exactly the canonical ones are accepted.

use crate::spec;
use crate::sym::*;
use bsn1::Length;
use std::cmp::Ordering;

entries!(h_l02_parse, h_l02_compare);

fn h_l02_parse() {
    let b = bytes::<24>();
    let n = choice(25);
    let all = &b[..n];
    let mut rest = all;
    let got = Length::parse(&mut rest);
    match (spec::length(all), got) {
        (Ok((Some(v), k)), Ok(Length::Definite(w))) => {
            check(v == w, "value");
            check(rest.len() == n - k, "octets consumed");
            cover("definite");
            out(&w.to_le_bytes());
        }
        (Ok((None, k)), Ok(Length::Indefinite)) => {
            check(rest.len() == n - k, "octets consumed");
            cover("indefinite");
        }
        (Err(k), Err(e)) => {
            check(k == spec::kind(&e), "kind of error");
            match k {
                spec::UNTERMINATED => cover("truncated"),
                spec::REDUNDANT => cover("redundant"),
                spec::OVERFLOW => cover("overflow"),
                _ => fail("unexpected kind of error"),
            }
        }
        _ => fail("accepted or refused wrongly"),
    }
}

fn any() -> (Length, Option<usize>) {
    if bool() {
        let n = usize();
        (Length::Definite(n), Some(n))
    } else {
        (Length::Indefinite, None)
    }
}

fn h_l02_compare() {
    let (a, x) = any();
    let (b, y) = any();
    match (x, y) {
        (Some(x), Some(y)) => {
            check((a == b) == (x == y), "equality of definite lengths");
            check((a != b) == (x != y), "inequality of definite lengths");
            let c = if x < y {
                Ordering::Less
            } else if x == y {
                Ordering::Equal
            } else {
                Ordering::Greater
            };
            check(a.partial_cmp(&b) == Some(c), "order of definite lengths");
            check((a < b) == (x < y), "less than");
            cover("both definite");
        }
        _ => {
            check(!(a == b) & (a != b), "an indefinite length equals nothing");
            check(a.partial_cmp(&b).is_none(), "an indefinite length is not ordered");
            check(!(a < b) & !(a > b) & !(a <= b) & !(a >= b), "an indefinite length is not ordered (operators)");
            cover("indefinite");
        }
    }
}
