pub struct Tokio; impl Tokio { pub fn current() -> Self { Tokio } }
