#[derive(Clone, Debug)]
pub struct Backtrace;
impl Backtrace { pub fn new() -> Backtrace { Backtrace } pub fn new_unresolved() -> Backtrace { Backtrace } pub fn resolve(&mut self) {} pub fn frames(&self)->&[()] { &[] } }
impl From<Vec<()>> for Backtrace { fn from(_: Vec<()>) -> Backtrace { Backtrace } }
