use crate::fw::Prop;
mod boxes;
mod hist;
mod hull;
mod line;
mod obj;
mod print;
mod query;
mod sample;
mod seg;
mod selfx;
mod shapes;
mod simp;
pub fn all() -> Vec<Prop> {
    let mut v = hull::props();
    v.extend(seg::props());
    v.extend(selfx::props());
    v.extend(simp::props());
    v.extend(shapes::props());
    v.extend(boxes::props());
    v.extend(line::props());
    v.extend(print::props());
    v.extend(query::props());
    v.extend(sample::props());
    v.extend(obj::props());
    v.extend(hist::props());
    v
}
