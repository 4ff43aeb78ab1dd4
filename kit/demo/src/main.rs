use demo::*;
fn main() {
    let g = grammar("S=aSb|ab");
    println!("{:?}", trees(&g, "aabb"));
    assert_eq!(recognize(&g, "aabb"), (4, true));
    assert_eq!(recognize(&g, "abb"), (2, false));
}
