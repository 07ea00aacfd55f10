fn main() { fx::replay(fx::ALL) }
