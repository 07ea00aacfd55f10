fn main() { fx::replay(hx::ALL) }
