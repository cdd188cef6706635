fn main() {
    println!("cargo:rustc-check-cfg=cfg(md_recover_verif)");
    // Content hash of /repo's sources: forces a rebuild even when a change keeps mtimes.
    println!("cargo:rerun-if-env-changed=MDV_SRC_HASH");
    println!(
        "cargo:rustc-env=MDV_SRC_HASH={}",
        std::env::var("MDV_SRC_HASH").unwrap_or_default()
    );
}
