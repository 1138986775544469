//# include heif_boxes.rs
}
fn main() {}
