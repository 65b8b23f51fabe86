use crate::H;
mod auth;
mod deep;
mod hist;
mod life;
mod num;
mod pay;
mod query;
mod sum;
mod swap;
pub fn all() -> Vec<H> {
    let mut v = vec![];
    v.extend(hist::all());
    v.extend(swap::all());
    v.extend(pay::all());
    v.extend(query::all());
    v.extend(auth::all());
    v.extend(num::all());
    v.extend(sum::all());
    v.extend(deep::all());
    v.extend(life::all());
    v
}
