pub struct Tokio;
