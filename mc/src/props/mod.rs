use crate::harness::Ctx;
mod buf;
pub mod conf;
mod spy;
mod fault;
mod flow;
mod launch;
mod pace;
mod term;
pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx),
}
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(flow::props());
    v.extend(term::props());
    v.extend(buf::props());
    v.extend(launch::props());
    v.extend(fault::props());
    v.extend(conf::props());
    v.extend(spy::props());
    v.extend(pace::props());
    v
}
