fn main() { symex::props::cli(symex::props::props(), symex::props::meta::META) }
